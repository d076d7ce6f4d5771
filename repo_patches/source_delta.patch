From 66bd836a65a70d483562e42e404dba52539bbfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 01/49] fix: exists must check the path named by a string, not
 its literal form

---
 internal/engine/task/action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 3a6f1ee..99c70b7 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -1023,7 +1023,7 @@ func exists(t *T) Op {
 	ignore := false
 
 	for ; args != pair.Null; args = pair.Cdr(args) {
-		path := literal.String(pair.Car(args))
+		path := common.String(pair.Car(args))
 		if path == "-i" {
 			ignore = true
 
-- 
2.43.0


From b339de422f451c82c2c379f521d816a402fd0f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 02/49] fix: wait must return the result of the last task
 waited on

---
 internal/engine/task/action.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 99c70b7..cc8eab5 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -1246,6 +1246,7 @@ func wait(t *T) Op {
 		}
 
 		v = append(v, t)
+		last = t
 	}
 
 	t.Wait()
-- 
2.43.0


From a59e39cf156e6f0231f13e0a9c70bf0f9e43f5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:54 +0000
Subject: [PATCH 03/49] fix: comparing a list with a shorter list, an atom or
 () must be false

---
 internal/common/type/pair/pair.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/common/type/pair/pair.go b/internal/common/type/pair/pair.go
index 0496334..24af631 100644
--- a/internal/common/type/pair/pair.go
+++ b/internal/common/type/pair/pair.go
@@ -29,8 +29,8 @@ type pair = T
 
 // Equal returns true if c is a pair with elements that are equal to p's.
 func (p *pair) Equal(c cell.I) bool {
-	if p == Null && c == Null {
-		return true
+	if p == Null || c == Null || !Is(c) {
+		return p == c
 	}
 
 	return p.car.Equal(Car(c)) && p.cdr.Equal(Cdr(c))
-- 
2.43.0


From 02de8b6035ebc5ab1d629205ac2b58c807a7b94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 04/49] fix: reject commands with missing operands and stray
 closers instead of hanging or dropping commands

---
 internal/reader/parser/parser.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 966dfb8..78d68cc 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -77,7 +77,7 @@ func (p *T) Parse() (err error) {
 			continue
 		}
 
-		p.emit(p.possibleBackground())
+		p.emit(p.check(p.possibleBackground()))
 	}
 
 	return nil
@@ -174,11 +174,11 @@ func (p *T) command() cell.I {
 
 	t := p.peek()
 	if t.Is(token.Orf) {
-		c = list.New(sym.Token(t), c)
+		c = list.New(sym.Token(t), p.check(c))
 
 		for p.peek().Is(token.Orf) {
 			p.consume()
-			c = list.Append(c, p.possibleAndf())
+			c = list.Append(c, p.check(p.possibleAndf()))
 		}
 	}
 
@@ -191,11 +191,11 @@ func (p *T) possibleAndf() cell.I {
 
 	t := p.peek()
 	if t.Is(token.Andf) {
-		c = list.New(sym.Token(t), c)
+		c = list.New(sym.Token(t), p.check(c))
 
 		for p.peek().Is(token.Andf) {
 			p.consume()
-			c = list.Append(c, p.possiblePipeline())
+			c = list.Append(c, p.check(p.possiblePipeline()))
 		}
 	}
 
@@ -207,9 +207,10 @@ func (p *T) possiblePipeline() cell.I {
 	c := p.possibleSequence()
 
 	if p.peek().Is(token.Pipe) {
+		c = p.check(c)
 		s := sym.Token(p.consume())
 
-		c = pair.Cons(p.possiblePipeline(), c)
+		c = pair.Cons(p.check(p.possiblePipeline()), c)
 		c = pair.Cons(s, c)
 	}
 
@@ -221,13 +222,23 @@ func (p *T) possibleSequence() cell.I {
 	c := p.possibleRedirection()
 
 	if p.peek().Is(';') {
-		c = list.New(sym.New("block"), c)
+		s := list.New(sym.New("block"))
+
+		if c != nil {
+			s = list.Append(s, c)
+		}
 
 		for p.peek().Is(';') {
 			p.consume()
 
-			c = list.Append(c, p.possibleRedirection())
+			// A command can be missing. Don't let it hide what follows.
+			c = p.possibleRedirection()
+			if c != nil {
+				s = list.Append(s, c)
+			}
 		}
+
+		c = s
 	}
 
 	return c
-- 
2.43.0


From 9666289c3dd20bcbf972bac4f1bbe630b2cfe7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:08 +0000
Subject: [PATCH 05/49] fix: evaluate every command on a line, not just the
 last

---
 internal/common/type/pipe/pipe.go |  6 ++++++
 internal/engine/engine.go         |  2 +-
 internal/reader/reader.go         | 32 +++++++++++++++++++++++++------
 main.go                           | 10 +++++++---
 4 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 19303b6..84f0e5b 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -96,6 +96,12 @@ func (p *pipe) Read() cell.I {
 		err error
 	)
 
+	// There may be commands left over from the last line read.
+	c = r.Next()
+	if c != nil {
+		return c
+	}
+
 	s, ok := line(b)
 	for ok {
 		c, err = r.Scan(s)
diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index e7ceba4..7f12afa 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -77,7 +77,7 @@ func Boot(path string, arguments []string) {
 			panic(err.Error())
 		}
 
-		if c != nil {
+		for ; c != nil; c = r.Next() {
 			System(j, c)
 		}
 	}
diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index c1bfab7..b3647e0 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -1,6 +1,8 @@
 package reader
 
 import (
+	"sync"
+
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
 	"github.com/michaelmacinnis/oh/internal/common/struct/token"
 	"github.com/michaelmacinnis/oh/internal/reader/lexer"
@@ -14,6 +16,9 @@ type T struct {
 	o chan cell.I
 	p *parser.T
 	s *lexer.T
+
+	l sync.Mutex
+	q []cell.I // Complete commands not yet returned.
 }
 
 type reader = T
@@ -27,17 +32,16 @@ func New(name string) *T {
 		s: lexer.New(name),
 	}
 
-	var v cell.I
-
 	r.p = parser.New(func(c cell.I) {
-		v = c
+		r.l.Lock()
+		defer r.l.Unlock()
+
+		r.q = append(r.q, c)
 	}, func() *token.T {
 		t := r.s.Token()
 
 		for t == nil {
-			r.o <- v
-
-			v = nil
+			r.o <- r.Next()
 
 			if !r.next() {
 				close(r.o)
@@ -69,6 +73,22 @@ func (r *reader) Parser() *parser.T {
 	return r.p
 }
 
+// Next returns the next complete command left over from the last call to Scan
+// or nil if there are none.
+func (r *reader) Next() cell.I {
+	r.l.Lock()
+	defer r.l.Unlock()
+
+	if len(r.q) == 0 {
+		return nil
+	}
+
+	c := r.q[0]
+	r.q = r.q[1:]
+
+	return c
+}
+
 // Scan reads the line and returns a cell.I on a complete parse or nil otherwise.
 // If scan encounters any error it returns the error.
 func (r *reader) Scan(line string) (c cell.I, err error) {
diff --git a/main.go b/main.go
index 09b74c9..52e6217 100644
--- a/main.go
+++ b/main.go
@@ -62,7 +62,9 @@ func command() bool {
 		os.Exit(1)
 	}
 
-	engine.Evaluate(job.New(process.Group()), c)
+	for ; c != nil; c = r.Next() {
+		engine.Evaluate(job.New(process.Group()), c)
+	}
 
 	return true
 }
@@ -402,9 +404,11 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 		}
 
 		if c != nil {
-			engine.Evaluate(j, c)
+			for ; c != nil; c = r.Next() {
+				engine.Evaluate(j, c)
 
-			process.RestoreForegroundGroup()
+				process.RestoreForegroundGroup()
+			}
 
 			r.Close()
 
-- 
2.43.0


From c2c4f3581bc26df120ee187c3c6fcf10dc5a76a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 06/49] fix: reading from a pipe after a syntax error must not
 hang

---
 internal/common/type/pipe/pipe.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 84f0e5b..edf2879 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -88,14 +88,21 @@ func (p *pipe) Read() cell.I {
 		return pair.Null
 	}
 
-	p.RLock()
-	defer p.RUnlock()
-
 	var (
 		c   cell.I
 		err error
 	)
 
+	defer func() {
+		if err != nil {
+			// The reader can't be used after an error.
+			p.readerReset()
+		}
+	}()
+
+	p.RLock()
+	defer p.RUnlock()
+
 	// There may be commands left over from the last line read.
 	c = r.Next()
 	if c != nil {
@@ -267,6 +274,13 @@ func (p *pipe) readerPipeNil() {
 }
 
 // writerClosePipe closes the write end of the pipe.
+func (p *pipe) readerReset() {
+	p.Lock()
+	defer p.Unlock()
+
+	p.p = nil
+}
+
 func (p *pipe) writerClosePipe() {
 	p.RLock()
 	defer p.RUnlock()
-- 
2.43.0


From 15ea6bc90dcc8a028bcbe9e6bae589da153483e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 07/49] fix: quote symbols that could not otherwise be read
 back

---
 internal/common/type/sym/sym.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/common/type/sym/sym.go b/internal/common/type/sym/sym.go
index e43a523..5baba5f 100644
--- a/internal/common/type/sym/sym.go
+++ b/internal/common/type/sym/sym.go
@@ -6,6 +6,7 @@ package sym
 import (
 	"fmt"
 	"math/big"
+	"strings"
 	"sync"
 
 	"github.com/michaelmacinnis/adapted"
@@ -92,10 +93,9 @@ func repr(s string) string {
 		return meta(q)
 	}
 
-	for _, r := range s {
-		if r == ' ' {
-			return meta(q)
-		}
+	// These characters can't be part of a symbol when it is read back.
+	if strings.ContainsAny(s, " \"#&'();<>`{|}") {
+		return meta(q)
 	}
 
 	if q[2:len(q)-1] != s {
-- 
2.43.0


From 69ba65aafe3d632c8abdacc90f0580ddd7b2292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:58 +0000
Subject: [PATCH 08/49] fix: fractions written as literals must be readable

---
 internal/reader/parser/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 78d68cc..be839b4 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -511,6 +511,16 @@ func (p *T) meta(c cell.I) cell.I {
 
 	t = pair.Cadr(c)
 
+	// A fraction like 1/2 is more than one token so it is read as a join.
+	if pair.Is(t) && t != pair.Null && pair.Car(t).Equal(sym.New("mend")) {
+		s := ""
+		for l := pair.Cddr(t); l != pair.Null; l = pair.Cdr(l) {
+			s += common.String(pair.Car(l))
+		}
+
+		return create(s)
+	}
+
 	arg, ok := t.(fmt.Stringer)
 	if ok {
 		return create(arg.String())
-- 
2.43.0


From c3dd8db9daf72383568afd7707cee3718adc2203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 09/49] fix: improper lists of more than one element must not
 print as proper lists

---
 internal/common/type/pair/pair.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/common/type/pair/pair.go b/internal/common/type/pair/pair.go
index 24af631..6836afb 100644
--- a/internal/common/type/pair/pair.go
+++ b/internal/common/type/pair/pair.go
@@ -57,7 +57,7 @@ func (p *pair) string(toString func(cell.I) string) string {
 	improper := false
 
 	tail := Cdr(p)
-	if !Is(tail) {
+	if !proper(p) {
 		improper = true
 		s += "(|" + name + " "
 	}
@@ -65,7 +65,7 @@ func (p *pair) string(toString func(cell.I) string) string {
 	sublist := false
 
 	head := Car(p)
-	if Is(head) && Is(Cdr(head)) {
+	if Is(head) && proper(head) {
 		sublist = true
 		s += "("
 	}
@@ -159,6 +159,15 @@ func SetCdr(c, value cell.I) {
 	To(c).cdr = value
 }
 
+// The function proper returns true if the list c ends with Null.
+func proper(c cell.I) bool {
+	for Is(c) && c != Null {
+		c = Cdr(c)
+	}
+
+	return c == Null
+}
+
 // A compiler-checked list of interfaces this type satisfies. Never called.
 func implements() { //nolint:deadcode,unused
 	var t pair
-- 
2.43.0


From 442948a731516d1928748e4eace13b1d779ad0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:54 +0000
Subject: [PATCH 10/49] fix: a block can be closed on the line of a background
 command

---
 internal/reader/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index be839b4..60b923c 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -418,7 +418,7 @@ func (p *T) block() cell.I {
 	c := pair.Null
 
 	for !p.peek().Is('}') {
-		if p.peek().Is('\n') {
+		if p.peek().Is('\n', token.Space) {
 			p.consume()
 
 			continue
-- 
2.43.0


From 62a9bb4b7e3da658dde6d4fcbff1600b54a7558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:19 +0000
Subject: [PATCH 11/49] fix: reject a redirection, &, |< or {} that has nothing
 to apply to

---
 internal/reader/parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 60b923c..b38ac2a 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -160,6 +160,7 @@ func (p *T) possibleBackground() cell.I {
 
 	t := p.peek()
 	if t.Is(token.Background) {
+		c = p.check(c)
 		p.consume()
 
 		c = list.New(sym.Token(t), c)
@@ -249,6 +250,7 @@ func (p *T) possibleRedirection() cell.I {
 	c := p.possibleSubstitution()
 
 	for p.peek().Is(token.Redirect) {
+		c = p.check(c)
 		s := sym.Token(p.consume())
 		c = list.New(s, p.check(p.implicitJoin(p.element())), c)
 
@@ -272,7 +274,7 @@ func (p *T) possibleSubstitution() cell.I {
 
 		for p.peek().Is(token.Substitute) {
 			s := sym.Token(p.consume())
-			l := pair.Cons(s, p.element())
+			l := pair.Cons(s, p.check(p.element()))
 			c = list.Append(c, l)
 
 			if !p.peek().Is(token.Substitute) {
@@ -302,7 +304,7 @@ func (p *T) braces() (c cell.I) {
 			c = p.braces()
 			p.expect('}')
 		default:
-			c = p.implicitJoin(p.element())
+			c = p.check(p.implicitJoin(p.element()))
 			c = pair.Cons(c, pair.Null)
 
 			p.expect('}')
-- 
2.43.0


From 6005d4b604fd57b2b1f44800b2613b0d12a94491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:31 +0000
Subject: [PATCH 12/49] fix: never silently drop the last command of a script,
 stream or -c text

---
 internal/common/type/pipe/pipe.go | 16 +++++++++++++++-
 internal/reader/lexer/lexer.go    |  5 +++++
 internal/reader/parser/parser.go  | 18 ++++++++++++++++--
 internal/reader/reader.go         |  5 +++++
 main.go                           |  2 +-
 5 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index edf2879..a3f6efe 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -21,7 +21,11 @@ import (
 	"github.com/michaelmacinnis/oh/internal/reader"
 )
 
-const name = "pipe"
+const (
+	errIncomplete = common.Error("incomplete command")
+
+	name = "pipe"
+)
 
 // T (pipe) is oh's pipe conduit type.
 type T struct {
@@ -111,6 +115,11 @@ func (p *pipe) Read() cell.I {
 
 	s, ok := line(b)
 	for ok {
+		if !strings.HasSuffix(s, "\n") {
+			// The last line may not end with a newline.
+			s += "\n"
+		}
+
 		c, err = r.Scan(s)
 		if err != nil {
 			panic(err.Error())
@@ -124,6 +133,11 @@ func (p *pipe) Read() cell.I {
 	}
 
 	if c == nil {
+		if r.Pending() {
+			err = errIncomplete
+			panic(err.Error())
+		}
+
 		return pair.Null
 	}
 
diff --git a/internal/reader/lexer/lexer.go b/internal/reader/lexer/lexer.go
index be93aaa..5058671 100644
--- a/internal/reader/lexer/lexer.go
+++ b/internal/reader/lexer/lexer.go
@@ -66,6 +66,11 @@ func (l *T) Expected() []string {
 	return l.expected
 }
 
+// Idle returns true if the lexer is not in the middle of a token.
+func (l *T) Idle() bool {
+	return l.first >= len(l.bytes)
+}
+
 // Scan passes a text buffer to the lexer for scanning.
 // If a buffer is currently being scanned, the new buffer will
 // be appended to the list of buffers waiting to be scanned.
diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index b38ac2a..652ecc6 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -23,6 +23,7 @@ import (
 // T holds the state of the parser.
 type T struct {
 	ahead int             // Lookahead count.
+	idle  bool            // Waiting for the first token of a command.
 	emit  func(cell.I)    // Function to call to emit a parsed command.
 	item  func() *token.T // Function to call to get another token.
 	token *token.T        // Token lookahead.
@@ -34,7 +35,7 @@ type T struct {
 // New creates a new parser.
 // It connects a producer of tokens with a consumer of cells.
 func New(emit func(cell.I), item func() *token.T) *T {
-	return &T{emit: emit, item: item, current: pair.Null}
+	return &T{emit: emit, idle: true, item: item, current: pair.Null}
 }
 
 // Copy copies the current parser but replaces its emit and item functions.
@@ -52,6 +53,11 @@ func (p *T) Current() cell.I {
 	return p.current
 }
 
+// Idle returns true if the parser is not in the middle of a command.
+func (p *T) Idle() bool {
+	return p.idle
+}
+
 // Parse consumes tokens and emits cells until there are no more tokens.
 func (p *T) Parse() (err error) {
 	defer func() {
@@ -70,7 +76,7 @@ func (p *T) Parse() (err error) {
 		}
 	}()
 
-	for t := p.peek(); t != nil; t = p.peek() {
+	for t := p.first(); t != nil; t = p.first() {
 		if t.Is('\n') {
 			p.consume()
 
@@ -139,6 +145,14 @@ func (p *T) expect(cs ...token.Class) {
 	panic("expected " + l + ` got "` + s + `"`)
 }
 
+func (p *T) first() *token.T {
+	p.idle = true
+	t := p.peek()
+	p.idle = false
+
+	return t
+}
+
 func (p *T) peek() *token.T {
 	if p.ahead > 0 {
 		return p.token
diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index b3647e0..a32c2a2 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -89,6 +89,11 @@ func (r *reader) Next() cell.I {
 	return c
 }
 
+// Pending returns true if the text scanned so far ends with an incomplete command.
+func (r *reader) Pending() bool {
+	return !r.p.Idle() || !r.s.Idle()
+}
+
 // Scan reads the line and returns a cell.I on a complete parse or nil otherwise.
 // If scan encounters any error it returns the error.
 func (r *reader) Scan(line string) (c cell.I, err error) {
diff --git a/main.go b/main.go
index 52e6217..3d86f0a 100644
--- a/main.go
+++ b/main.go
@@ -57,7 +57,7 @@ func command() bool {
 		os.Exit(1)
 	}
 
-	if c == nil {
+	if c == nil || r.Pending() {
 		println("incomplete command")
 		os.Exit(1)
 	}
-- 
2.43.0


From f575515a7af57b138de903940d334a2f9af50187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:12 +0000
Subject: [PATCH 13/49] fix: columns after a multi-line string must not be off
 by one

---
 internal/reader/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/reader/lexer/lexer.go b/internal/reader/lexer/lexer.go
index 5058671..99442b2 100644
--- a/internal/reader/lexer/lexer.go
+++ b/internal/reader/lexer/lexer.go
@@ -117,7 +117,7 @@ func (l *T) accept(r token.Class, w int) {
 		// We fix this when emitting the newline.
 		l.source.Line++
 		l.runes = 1
-	} else {
+	} else if r != eof {
 		l.runes++
 	}
 
-- 
2.43.0


From 89e27790ea63b44eb76299a8a2fad11ec9626564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 14/49] fix: the text shown for a command must stop at the end
 of its line

---
 internal/reader/lexer/lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/reader/lexer/lexer.go b/internal/reader/lexer/lexer.go
index 99442b2..050a38a 100644
--- a/internal/reader/lexer/lexer.go
+++ b/internal/reader/lexer/lexer.go
@@ -131,7 +131,11 @@ func (l *T) emit(c token.Class, v string) {
 		source.Line--
 	}
 
-	source.Text = strings.TrimRight(l.bytes[l.first:], "\n")
+	// The rest of the line. There may be more lines in the buffer.
+	source.Text = l.bytes[l.first:]
+	if n := strings.IndexByte(source.Text, '\n'); n >= 0 {
+		source.Text = source.Text[:n]
+	}
 
 	t := token.New(c, v, &source)
 
-- 
2.43.0


From f681e33453698415caf7ad4eb2dbbeb3b671d7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:58 +0000
Subject: [PATCH 15/49] fix: refuse to modify the empty list

---
 internal/common/type/pair/pair.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/common/type/pair/pair.go b/internal/common/type/pair/pair.go
index 6836afb..c3727c0 100644
--- a/internal/common/type/pair/pair.go
+++ b/internal/common/type/pair/pair.go
@@ -148,15 +148,24 @@ func Cons(h, t cell.I) cell.I {
 }
 
 // SetCar sets the car/head/first of the pair c to value.
-// If c is not a pair, this function will panic.
+// If c is not a pair, or is the (shared) empty list, this function will panic.
 func SetCar(c, value cell.I) {
-	To(c).car = value
+	mutable(c).car = value
 }
 
 // SetCdr sets the cdr/tail/rest of the pair c to value.
-// If c is not a pair, this function will panic.
+// If c is not a pair, or is the (shared) empty list, this function will panic.
 func SetCdr(c, value cell.I) {
-	To(c).cdr = value
+	mutable(c).cdr = value
+}
+
+// The function mutable returns c as a pair that can safely be modified.
+func mutable(c cell.I) *pair {
+	if c == Null {
+		panic("the empty list cannot be modified")
+	}
+
+	return To(c)
 }
 
 // The function proper returns true if the list c ends with Null.
-- 
2.43.0


From 9d9d64cb80d4b57d8f6f6c07d9ba6da22571bb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:42 +0000
Subject: [PATCH 16/49] fix: evaluating catch and object must not add to the
 code evaluated

---
 internal/engine/boot/boot.oh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 5b61670..ab913b8 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -131,7 +131,7 @@ define quote: syntax (v) {
 }
 
 define object: syntax ((body)) e {
-    body append (quote ((method self () = (return (resolve self)))))
+    set body: (body slice 0) append (quote ((method self () = (return (resolve self)))))
     e eval (cons block $body)
 }
 
@@ -539,7 +539,7 @@ define catch: syntax (name (clause)) e {
     if (null? $clause) {
         set body: list body
     } else {
-        set body: clause append $body
+        set body: (clause slice 0) append $body
     }
 
     define defn: list method (list $name throw) =
-- 
2.43.0


From 8468425e9a5b755e89255a9015f8a477f47981e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:32 +0000
Subject: [PATCH 17/49] fix: tail calls must run in bounded memory

---
 internal/engine/task/action.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index cc8eab5..347a659 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -237,6 +237,10 @@ func apply(t *T) Op {
 
 	t.ReplaceOp(&registers{frame: t.frame})
 
+	// The return continuation must not keep the binding (and, through it,
+	// the caller's scope) or tail calls won't run in constant space.
+	t.ReplaceResult(pair.Null)
+
 	cc := &registers{dump: t.dump, stack: t.stack}
 
 	// If the visibility differs, create a new frame.
-- 
2.43.0


From 778bc012f26cf1ee9913f30d3d3098c1ef3e0de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:35 +0000
Subject: [PATCH 18/49] fix: a catch without a handler must pass the exception
 on

---
 internal/engine/boot/boot.oh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index ab913b8..7971240 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -537,7 +537,7 @@ define catch: syntax (name (clause)) e {
     define body: list throw (list resolve $name)
 
     if (null? $clause) {
-        set body: list body
+        set body: list $body
     } else {
         set body: (clause slice 0) append $body
     }
-- 
2.43.0


From ebe434fe9e608c333d3090773cfd6b14f82f4cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:51 +0000
Subject: [PATCH 19/49] fix: waiting to read or write a pipe must not block its
 other users

Whole lines are written at once so that concurrent writers' lines are not mixed.
---
 internal/common/type/pipe/pipe.go | 66 ++++++++++++-------------------
 1 file changed, 26 insertions(+), 40 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index a3f6efe..66c6b22 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -30,6 +30,7 @@ const (
 // T (pipe) is oh's pipe conduit type.
 type T struct {
 	sync.RWMutex
+	l sync.Mutex // Held while reading (which may block).
 	b *bufio.Reader
 	p *reader.T
 	r *os.File
@@ -82,6 +83,9 @@ func (p *pipe) Name() string {
 
 // Read reads a cell from the pipe.
 func (p *pipe) Read() cell.I {
+	p.l.Lock()
+	defer p.l.Unlock()
+
 	b := p.buffer()
 	if b == nil {
 		return pair.Null
@@ -104,9 +108,6 @@ func (p *pipe) Read() cell.I {
 		}
 	}()
 
-	p.RLock()
-	defer p.RUnlock()
-
 	// There may be commands left over from the last line read.
 	c = r.Next()
 	if c != nil {
@@ -146,14 +147,14 @@ func (p *pipe) Read() cell.I {
 
 // ReadLine reads a line from the pipe.
 func (p *pipe) ReadLine() cell.I {
+	p.l.Lock()
+	defer p.l.Unlock()
+
 	b := p.buffer()
 	if b == nil {
 		return pair.Null
 	}
 
-	p.RLock()
-	defer p.RUnlock()
-
 	s, ok := line(b)
 	if !ok {
 		return pair.Null
@@ -170,44 +171,12 @@ func (p *pipe) ReaderClose() {
 
 // Write writes a cell to the pipe.
 func (p *pipe) Write(c cell.I) {
-	// Yes, RLock. This is a write but doesn't change the pipe itself.
-	p.RLock()
-	defer p.RUnlock()
-
-	if p.w == nil {
-		panic("write to closed pipe")
-	}
-
-	_, err := p.w.WriteString(literal.String(c))
-	if err != nil {
-		panic(err.Error())
-	}
-
-	_, err = p.w.WriteString("\n")
-	if err != nil {
-		panic(err.Error())
-	}
+	p.writeString(literal.String(c) + "\n")
 }
 
 // WriteLine writes the string value of a cell to the pipe.
 func (p *pipe) WriteLine(c cell.I) {
-	// Yes, RLock. This is a write but doesn't change the pipe itself.
-	p.RLock()
-	defer p.RUnlock()
-
-	if p.w == nil {
-		panic("write to closed pipe")
-	}
-
-	_, err := p.w.WriteString(common.String(c))
-	if err != nil {
-		panic(err.Error())
-	}
-
-	_, err = p.w.WriteString("\n")
-	if err != nil {
-		panic(err.Error())
-	}
+	p.writeString(common.String(c) + "\n")
 }
 
 // WriterClose closes the write end of the pipe.
@@ -309,6 +278,23 @@ func (p *pipe) writerClosePipe() {
 	}
 }
 
+// writeString writes s, as a whole, to the pipe. No lock is held while
+// writing as this may block until something is read from the pipe.
+func (p *pipe) writeString(s string) {
+	p.RLock()
+	w := p.w
+	p.RUnlock()
+
+	if w == nil {
+		panic("write to closed pipe")
+	}
+
+	_, err := w.WriteString(s)
+	if err != nil {
+		panic(err.Error())
+	}
+}
+
 // writerPipeNil sets the write end of the pipe to nil.
 func (p *pipe) writerPipeNil() {
 	p.Lock()
-- 
2.43.0


From 2d76e98ce30da47a222ebea796c770c4b8e715a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:19 +0000
Subject: [PATCH 20/49] fix: refuse the wrong number of arguments in every
 builtin

---
 internal/engine/commands/conduit.go | 25 +++++++++++++++++++------
 internal/engine/commands/core.go    |  6 ++++--
 internal/engine/commands/file.go    |  7 ++++---
 internal/engine/commands/list.go    | 22 ++++++++++++++--------
 internal/engine/engine.go           |  2 ++
 internal/engine/task/action.go      | 24 +++++++++++++++++++-----
 6 files changed, 62 insertions(+), 24 deletions(-)

diff --git a/internal/engine/commands/conduit.go b/internal/engine/commands/conduit.go
index 40f4329..d17dae9 100644
--- a/internal/engine/commands/conduit.go
+++ b/internal/engine/commands/conduit.go
@@ -4,6 +4,7 @@ import (
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
 	"github.com/michaelmacinnis/oh/internal/common/interface/conduit"
 	"github.com/michaelmacinnis/oh/internal/common/type/pair"
+	"github.com/michaelmacinnis/oh/internal/common/validate"
 )
 
 // ConduitMethods returns a mapping of names to methods shared by channels and pipes.
@@ -20,27 +21,37 @@ func ConduitMethods() map[string]func(cell.I, cell.I) cell.I {
 	}
 }
 
-func close(s, _ cell.I) cell.I {
+func close(s, args cell.I) cell.I {
+	validate.Fixed(args, 0, 0)
+
 	conduit.To(s).Close()
 
 	return pair.Null
 }
 
-func read(s, _ cell.I) cell.I {
+func read(s, args cell.I) cell.I {
+	validate.Fixed(args, 0, 0)
+
 	return pair.Car(conduit.To(s).Read())
 }
 
-func readerClose(s, _ cell.I) cell.I {
+func readerClose(s, args cell.I) cell.I {
+	validate.Fixed(args, 0, 0)
+
 	conduit.To(s).ReaderClose()
 
 	return pair.Null
 }
 
-func readLine(s, _ cell.I) cell.I {
+func readLine(s, args cell.I) cell.I {
+	validate.Fixed(args, 0, 0)
+
 	return conduit.To(s).ReadLine()
 }
 
-func readList(s, _ cell.I) cell.I {
+func readList(s, args cell.I) cell.I {
+	validate.Fixed(args, 0, 0)
+
 	return conduit.To(s).Read()
 }
 
@@ -56,7 +67,9 @@ func writeLine(s, args cell.I) cell.I {
 	return args
 }
 
-func writerClose(s, _ cell.I) cell.I {
+func writerClose(s, args cell.I) cell.I {
+	validate.Fixed(args, 0, 0)
+
 	conduit.To(s).WriterClose()
 
 	return pair.Null
diff --git a/internal/engine/commands/core.go b/internal/engine/commands/core.go
index 31dd4de..0657c91 100644
--- a/internal/engine/commands/core.go
+++ b/internal/engine/commands/core.go
@@ -88,8 +88,10 @@ func mend(args cell.I) cell.I {
 }
 
 func rend(args cell.I) cell.I {
-	sep := pair.Car(args)
-	s := pair.Cadr(args)
+	v := validate.Fixed(args, 2, 2)
+
+	sep := v[0]
+	s := v[1]
 
 	create := sym.New
 	if _, ok := s.(*str.T); ok {
diff --git a/internal/engine/commands/file.go b/internal/engine/commands/file.go
index b7be7e3..aa09a34 100644
--- a/internal/engine/commands/file.go
+++ b/internal/engine/commands/file.go
@@ -9,15 +9,16 @@ import (
 	"github.com/michaelmacinnis/adapted"
 	"github.com/michaelmacinnis/oh/internal/common"
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
-	"github.com/michaelmacinnis/oh/internal/common/type/pair"
 	"github.com/michaelmacinnis/oh/internal/common/type/pipe"
 	"github.com/michaelmacinnis/oh/internal/common/type/sym"
 	"github.com/michaelmacinnis/oh/internal/common/validate"
 )
 
 func open(args cell.I) cell.I {
-	mode := common.String(pair.Car(args))
-	path := common.String(pair.Cadr(args))
+	v := validate.Fixed(args, 2, 2)
+
+	mode := common.String(v[0])
+	path := common.String(v[1])
 	flags := 0
 
 	if !strings.ContainsAny(mode, "-") {
diff --git a/internal/engine/commands/list.go b/internal/engine/commands/list.go
index 5f69416..bf315d2 100644
--- a/internal/engine/commands/list.go
+++ b/internal/engine/commands/list.go
@@ -42,6 +42,8 @@ func extend(s, args cell.I) cell.I {
 }
 
 func get(s, args cell.I) cell.I {
+	validate.Fixed(args, 0, 2)
+
 	v, args := validate.Variadic(args, 0, 1)
 
 	self := pair.To(s)
@@ -59,7 +61,9 @@ func get(s, args cell.I) cell.I {
 	return pair.Car(list.Tail(self, i, dflt))
 }
 
-func head(s, _ cell.I) cell.I {
+func head(s, args cell.I) cell.I {
+	validate.Fixed(args, 0, 0)
+
 	return pair.Car(pair.To(s))
 }
 
@@ -76,17 +80,17 @@ func reverse(s, args cell.I) cell.I {
 }
 
 func setHead(s, args cell.I) cell.I {
-	v := pair.Car(args)
-	pair.SetCar(s, v)
+	v := validate.Fixed(args, 1, 1)
+	pair.SetCar(s, v[0])
 
-	return v
+	return v[0]
 }
 
 func setTail(s, args cell.I) cell.I {
-	v := pair.Car(args)
-	pair.SetCdr(s, v)
+	v := validate.Fixed(args, 1, 1)
+	pair.SetCdr(s, v[0])
 
-	return v
+	return v[0]
 }
 
 func slice(s, args cell.I) cell.I {
@@ -102,6 +106,8 @@ func slice(s, args cell.I) cell.I {
 	return list.Slice(s, start, end)
 }
 
-func tail(s, _ cell.I) cell.I {
+func tail(s, args cell.I) cell.I {
+	validate.Fixed(args, 0, 0)
+
 	return pair.Cdr(pair.To(s))
 }
diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index 7f12afa..0e65d35 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -227,6 +227,8 @@ func init() { //nolint:gochecknoinits
 }
 
 func jobs(t *task.T) task.Op {
+	validate.Fixed(t.Code(), 0, 0)
+
 	// TODO: Convert this to a function that returns what a wrapper needs.
 	job.Jobs(pipe.W(t.CellValue("stdout")))
 
diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 347a659..59a513f 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -995,6 +995,8 @@ func makeListScope() scope.I {
 func cd(t *T) Op {
 	args := t.expand(t.code)
 
+	validate.Fixed(args, 0, 1)
+
 	dir := ""
 
 	if args == pair.Null {
@@ -1080,7 +1082,9 @@ func fatal(t *T) Op {
 }
 
 func get(t *T) Op {
-	k := literal.String(pair.Car(t.code))
+	args := validate.Fixed(t.code, 1, 1)
+
+	k := literal.String(args[0])
 
 	b := bound(t.Result())
 
@@ -1151,7 +1155,9 @@ func isMethod(t *T) Op {
 }
 
 func isSet(t *T) Op {
-	k := literal.String(pair.Car(t.code))
+	args := validate.Fixed(t.code, 1, 1)
+
+	k := literal.String(args[0])
 
 	b := bound(t.Result())
 
@@ -1174,7 +1180,9 @@ func isSyntax(t *T) Op {
 }
 
 func resolve(t *T) Op {
-	k := literal.String(pair.Car(t.code))
+	args := validate.Fixed(t.code, 1, 1)
+
+	k := literal.String(args[0])
 
 	b := bound(t.Result())
 
@@ -1184,7 +1192,9 @@ func resolve(t *T) Op {
 }
 
 func resolves(t *T) Op {
-	k := literal.String(pair.Car(t.code))
+	args := validate.Fixed(t.code, 1, 1)
+
+	k := literal.String(args[0])
 
 	b := bound(t.Result())
 
@@ -1196,6 +1206,8 @@ func resolves(t *T) Op {
 }
 
 func trace(t *T) Op {
+	validate.Fixed(t.code, 0, 0)
+
 	dup := *t.registers
 
 	l := dup.frame.Loc()
@@ -1227,7 +1239,9 @@ func trace(t *T) Op {
 }
 
 func unset(t *T) Op {
-	k := literal.String(pair.Car(t.code))
+	args := validate.Fixed(t.code, 1, 1)
+
+	k := literal.String(args[0])
 
 	b := bound(t.Result())
 
-- 
2.43.0


From 2839129360e0df778ad255fe038d95d6f16c39d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:30 +0000
Subject: [PATCH 21/49] fix: umask 0 must set the mask

---
 internal/engine/commands/umask_unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/engine/commands/umask_unix.go b/internal/engine/commands/umask_unix.go
index 8ee8c05..827640e 100644
--- a/internal/engine/commands/umask_unix.go
+++ b/internal/engine/commands/umask_unix.go
@@ -23,7 +23,7 @@ func umask(args cell.I) cell.I {
 
 	omask := process.Umask(int(nmask))
 
-	if nmask == 0 {
+	if len(v) == 0 {
 		process.Umask(omask)
 	}
 
-- 
2.43.0


From bd20e04e947953e6f912b455719cb477f234bd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:57 +0000
Subject: [PATCH 22/49] fix: closing a file open for reading and writing must
 not crash

---
 internal/common/type/pipe/pipe.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 66c6b22..c76ec06 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -238,7 +238,8 @@ func (p *pipe) readerClosePipe() {
 		p.p.Close()
 	}
 
-	if p.r != nil {
+	// A file open for both is closed with the last end.
+	if p.r != nil && p.r != p.w {
 		err := p.r.Close()
 		if err != nil {
 			panic(err.Error())
@@ -268,7 +269,7 @@ func (p *pipe) writerClosePipe() {
 	p.RLock()
 	defer p.RUnlock()
 
-	if p.w == nil {
+	if p.w == nil || p.w == p.r {
 		return
 	}
 
-- 
2.43.0


From b16cb9a70299269b1a479c41e539f5d76a330053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:20 +0000
Subject: [PATCH 23/49] fix: splice must not corrupt the commands around it

---
 internal/engine/task/action.go    | 13 +++++++++++--
 internal/engine/task/operation.go |  4 ++++
 internal/engine/task/registers.go | 13 +++++++++++++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 59a513f..fc3dbcd 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -913,10 +913,19 @@ func spawn(t *T) Op {
 }
 
 func splice(t *T) Op {
-	t.PopResult()
-
 	v := validate.Fixed(t.code, 1, 1)
 
+	// Only an argument can be replaced by any number of values.
+	if !t.argument() {
+		if list.Length(v[0]) != 1 {
+			panic("splice must be used as an argument")
+		}
+
+		return t.Return(pair.Car(v[0]))
+	}
+
+	t.PopResult()
+
 	for c := v[0]; c != pair.Null; c = pair.Cdr(c) {
 		t.PushResult(pair.Car(c))
 	}
diff --git a/internal/engine/task/operation.go b/internal/engine/task/operation.go
index adb0350..6241bdd 100644
--- a/internal/engine/task/operation.go
+++ b/internal/engine/task/operation.go
@@ -13,6 +13,10 @@ type Op interface {
 	Perform(*T) Op
 }
 
+func (a Action) is(b Action) bool {
+	return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
+}
+
 func opString(o Op) string {
 	if o == nil {
 		return "<nil>"
diff --git a/internal/engine/task/registers.go b/internal/engine/task/registers.go
index c249188..96132e0 100644
--- a/internal/engine/task/registers.go
+++ b/internal/engine/task/registers.go
@@ -135,6 +135,19 @@ var (
 	done = &stack{}
 )
 
+// The argument method returns true if the value the current operation returns
+// is one of the arguments of a command.
+func (m *registers) argument() bool {
+	s := m.stack.stack
+	for toRegisters(s.op) != nil {
+		s = s.stack
+	}
+
+	a, ok := s.op.(Action)
+
+	return ok && (a.is(evalArgs) || a.is(execMethod))
+}
+
 func (m *registers) arguments() cell.I {
 	e := m.PopResult()
 	l := pair.Null
-- 
2.43.0


From b59691067745aee5cacb12368e1581990da345f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:30 +0000
Subject: [PATCH 24/49] fix: a directory as a command must return whether it
 was entered

---
 internal/engine/task/action.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index fc3dbcd..75379a0 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -816,6 +816,9 @@ func external(t *T) Op {
 	cache.Check(arg0)
 
 	if !executable {
+		// There is no external command to wait for so don't resume.
+		t.RemoveOp()
+
 		return t.Return(t.Chdir(name))
 	}
 
-- 
2.43.0


From 2ecfa40ebd0ab5d136eec9ac87bf8d911cfb8c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:11 +0000
Subject: [PATCH 25/49] fix: extending a list with itself or its tail must end

---
 internal/common/type/list/list.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/common/type/list/list.go b/internal/common/type/list/list.go
index 7883061..9d90eb4 100644
--- a/internal/common/type/list/list.go
+++ b/internal/common/type/list/list.go
@@ -89,12 +89,11 @@ func Join(lists ...cell.I) cell.I {
 			continue
 		}
 
-		for list != pair.Null {
-			p := pair.Cons(pair.Car(list), pair.Null)
+		// The list may share cells with start so take its elements first.
+		for _, e := range Array(list) {
+			p := pair.Cons(e, pair.Null)
 			pair.SetCdr(end, p)
 			end = p
-
-			list = pair.Cdr(list)
 		}
 	}
 
-- 
2.43.0


From f1af1708eba1795e88c6e3b69b69d2d89f604d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:32 +0000
Subject: [PATCH 26/49] fix: a command taken from a variable must still be a
 method or syntax

---
 internal/engine/task/action.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 75379a0..931b13b 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -966,6 +966,11 @@ func m(do func(s, args cell.I) cell.I) *Method {
 
 // Bind a command to a scope.
 func bind(a command, self cell.I) *binding {
+	// The value of a variable may already be bound.
+	if b, ok := a.(*binding); ok {
+		a = b.command
+	}
+
 	return &binding{a, self}
 }
 
-- 
2.43.0


From 665d6265a753e705a9adb12a96dfb648486097a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:05 +0000
Subject: [PATCH 27/49] fix: fn must not evaluate the values of its arguments
 again

---
 internal/engine/boot/boot.oh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 7971240..c11c2da 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -617,11 +617,11 @@ define fn: syntax (name (body)) e {
 
     e eval (quasiquote (define (unquote $name) (syntax ((@)) {
         define args: (unquote $e) eval (list glob (splice $@))
-        define body: cons (list define @ (list list (splice $args))) (unquote $body)
+        define body: cons (list define @ (list quote $args)) (unquote $body)
         define count: number 1
 
         while $args {
-            set body: cons (list define (symbol $count) (args head)) $body
+            set body: cons (list define (symbol $count) (list quote (args head))) $body
 
             set args: args tail
             set count: add $count 1
-- 
2.43.0


From c3c5fd85a857dc21d55d32bebdc511079d0ddff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:34 +0000
Subject: [PATCH 28/49] fix: input can be redirected from a device

The check that redirected input exists ignored devices (as it must for
output), so that < /dev/null always failed with 'does not exist'.
---
 internal/engine/boot/boot.oh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index c11c2da..df0c035 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -258,14 +258,12 @@ block {
 
             define f ()
             if (not (or (chan? $c) (pipe? $c))) {
-                if (and $check (exists -i $c)) {
-                    if (eq? w $mode) {
-                        throw "${c} exists"
-                    }
-                } else {
-                    if (eq? r $mode) {
+                if (eq? r $mode) {
+                    if (not (exists $c)) {
                         throw "${c} does not exist"
                     }
+                } else if (and $check (eq? w $mode) (exists -i $c)) {
+                    throw "${c} exists"
                 }
                 set f: open $mode $c
                 set c $f
-- 
2.43.0


From 4d3d3154a5879089c4b0e878569ff973cdd232c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 29/49] fix: a pipeline's value must be its last command's

The value was that of whichever end of the pipe finished last, so that it
depended on timing. Likewise the last command's exception was lost if the
other end finished first with one (a broken pipe, as a consequence).
---
 internal/engine/boot/boot.oh | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index df0c035..2b5cbc0 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -238,10 +238,21 @@ block {
                 p writer-close
             } 
 
-            c write (override-stdin $e $p $right)
+            define rex: override-stdin $e $p $right
             p reader-close
 
-            collect-unwrap-r-ex $c 2
+            define ex: (c read) tail
+            if (not: null? (rex tail)) {
+                set ex: rex tail
+            }
+
+            # TODO: Handle cases where we want to throw ().
+            if (not: null? $ex) {
+                throw $ex
+            }
+
+            # The value is the last command's, whichever finishes first.
+            return (rex head)
         }
     }
 
-- 
2.43.0


From 6269c66baa96fa1c5dc2ed0a5938e7a7f55536ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:36 +0000
Subject: [PATCH 30/49] fix: an exported list holding a value without text must
 not stop commands

Such a value is left out of the environment like any other without text;
it used to make every external command throw.
---
 internal/common/struct/hash/hash.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/internal/common/struct/hash/hash.go b/internal/common/struct/hash/hash.go
index 0b8e315..deca5f4 100644
--- a/internal/common/struct/hash/hash.go
+++ b/internal/common/struct/hash/hash.go
@@ -69,8 +69,8 @@ func (h *hash) Exported() map[string]string {
 	exported := map[string]string{}
 
 	for k, v := range h.m {
-		if s, ok := v.Get().(fmt.Stringer); ok {
-			exported[k] = s.String()
+		if s, ok := text(v.Get()); ok {
+			exported[k] = s
 		}
 	}
 
@@ -104,3 +104,20 @@ func (h *hash) Size() int {
 
 	return len(h.m)
 }
+
+// text returns the string value for the cell c and whether it has one.
+// A list is only as stringable as its elements.
+func text(c cell.I) (s string, ok bool) {
+	i, ok := c.(fmt.Stringer)
+	if !ok {
+		return "", false
+	}
+
+	defer func() {
+		if recover() != nil {
+			ok = false
+		}
+	}()
+
+	return i.String(), true
+}
-- 
2.43.0


From d4f8e262510734856481236e80fbbf55c4a28501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:42 +0000
Subject: [PATCH 31/49] fix: the environment must not replace the shell's own
 streams

A variable named stdin, stdout, stderr or export in the environment took
the place of the shell's own, and nothing could be written or run.
---
 internal/engine/engine.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index 0e65d35..0fa4c16 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -195,18 +195,19 @@ func init() { //nolint:gochecknoinits
 
 	env0 = env.New(nil)
 
-	env0.Export("export", ee)
-
-	env0.Export("stdin", pipe.New(os.Stdin, nil))
-	env0.Export("stdout", pipe.New(nil, os.Stdout))
-	env0.Export("stderr", pipe.New(nil, os.Stderr))
-
 	// Environment variables.
 	for _, entry := range os.Environ() {
 		kv := strings.SplitN(entry, "=", 2)
 		env0.Export(kv[0], sym.New(kv[1]))
 	}
 
+	// These are the shell's own, whatever the environment holds.
+	env0.Export("export", ee)
+
+	env0.Export("stdin", pipe.New(os.Stdin, nil))
+	env0.Export("stdout", pipe.New(nil, os.Stdout))
+	env0.Export("stderr", pipe.New(nil, os.Stderr))
+
 	scope0 = env.New(nil)
 
 	scope0.Export("export", ee)
-- 
2.43.0


From ea86210a8e6a4261ab30d1e322b279f7aeb38b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:58 +0000
Subject: [PATCH 32/49] fix: the status of a command that dumped core must be
 128 plus its signal

---
 internal/system/job/job_unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 23c6e34..f439c54 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -427,7 +427,7 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 		code = ws.ExitStatus()
 
 	case ws.Signaled():
-		code += 128
+		code = 128 + int(ws.Signal())
 
 	default:
 		return
-- 
2.43.0


From 1ff49528c8240f0d6a6261288561a791c080f44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:14 +0000
Subject: [PATCH 33/49] fix: without job control a stopped command is waited
 for

---
 internal/system/job/job_unix.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index f439c54..91137bf 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -382,6 +382,11 @@ func (j *job) interrupt() {
 }
 
 func (j *job) notify(pid int, ws unix.WaitStatus) {
+	if !options.Monitor() && (ws.Continued() || ws.Stopped()) {
+		// Without job control there are no stopped jobs.
+		return
+	}
+
 	if ws.Continued() {
 		t, found := j.stopped[pid]
 		if !found {
-- 
2.43.0


From f6a7525db88226a0b768df33f744fdc3e7f6dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:57 +0000
Subject: [PATCH 34/49] fix: the directory a pattern starts at is not part of
 the pattern

---
 internal/engine/task/task.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index 1819c54..71e62ba 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -223,6 +223,18 @@ func (t *T) Stop() {
 	t.state.Stop(nil)
 }
 
+// escape returns a pattern that matches only the directory path if path has
+// a character in special. Otherwise path itself is returned.
+func escape(path, special string) string {
+	if !strings.ContainsAny(path, special) {
+		return path
+	}
+
+	return strings.NewReplacer(
+		"*", `\*`, "?", `\?`, "[", `\[`, `\`, `[\\]`,
+	).Replace(filepath.Clean(path)) + string(os.PathSeparator)
+}
+
 func (t *T) expand(args cell.I) cell.I {
 	l := pair.Null
 
@@ -237,18 +249,21 @@ func (t *T) expand(args cell.I) cell.I {
 
 		s := common.String(c)
 
-		path := t.tildeExpand(s)
-		if !strings.ContainsAny(path, "*?[") {
-			l = list.Append(l, sym.New(path))
+		if !strings.ContainsAny(s, "*?[") {
+			l = list.Append(l, sym.New(t.tildeExpand(s, "")))
 
 			continue
 		}
 
+		// Only what was written is a pattern, not the directory it starts at.
+		path := t.tildeExpand(s, "*?[")
+
 		pwd := ""
 		if !filepath.IsAbs(path) {
 			pwd = t.stringValue("PWD")
 			// path = filepath.Join(pwd, path)
-			path = pwd + string(os.PathSeparator) + path
+			n := strings.LastIndexByte(path[:strings.IndexAny(path, "*?[")], os.PathSeparator) + 1
+			path = escape(pwd+string(os.PathSeparator)+path[:n], "*?[") + path[n:]
 			pwd = filepath.Clean(pwd)
 		}
 
@@ -290,12 +305,14 @@ func (t *T) stringValue(k string) string {
 	return common.String(v)
 }
 
-func (t *T) tildeExpand(s string) string {
+// tildeExpand replaces a leading ~ with the home directory. Characters in
+// the home directory that are also in special are escaped.
+func (t *T) tildeExpand(s, special string) string {
 	if !strings.HasPrefix(s, "~") {
 		return s
 	}
 
-	return filepath.Join(t.stringValue("HOME"), s[1:])
+	return filepath.Join(escape(t.stringValue("HOME"), special), s[1:])
 }
 
 func (t *T) value(s scope.I, k string) cell.I {
-- 
2.43.0


From 745216ba5aa166e8e319f7b285c1301bc2e727bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:11 +0000
Subject: [PATCH 35/49] fix: code in an imported file must not depend on the
 importing being in progress

Exceptions, imports, return and exit in an imported file's code, as well as
nested imports by several tasks, could resume the import service in the place
of the program, which then hung.
---
 internal/engine/boot/boot.oh | 96 +++++++++++++++++++-----------------
 1 file changed, 52 insertions(+), 44 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 2b5cbc0..649d32b 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -407,82 +407,90 @@ define import
 define module: method (name) = # At the top-level module is a no-op.
 
 block {
-    define do-import: method (callback path) {
-        define import-return $return
+    define modules: map
+    define request: chan 1
 
-        catch ex {
-            callback (cons () $ex)
-            import-return
+    # A reply is a list, the module or () and then the exception.
+    define accept: method (reply) {
+        if (or (null? $reply) (not: cons? $reply)) {
+            exit $reply # The module did.
         }
 
-        define import: method (path) {
-            define ecex: (method () {
-                request write $return $path
-                return ()
-            })
+        if (not: null? (reply tail)) {
+            throw (reply get 1)
+        }
 
-            define ex: ecex tail
+        return (reply head)
+    }
 
-            # TODO: Handle cases where we want to throw ().
-            if (not: null? $ex) {
-                throw $ex
-            }
+    # The file's code is enclosed by this method so nothing here,
+    # like an exception handler, can be specific to loading it.
+    define evaluate: method (path) {
+        define evaluated $return
+        define loading true
+        define module-name ()
 
-            define ec: ecex head
-            if (not: null? $ec) {
-                return $ec
+        define import: method (path) {
+            if $loading {
+                accept (load $path)
+            } else {
+                request-import $path
             }
-
-            import-return
         }
 
-        define module-name ()
-
         define module: method (name) {
-            if (modules has $name) {
-                define module-object: modules get $name
-                callback (list $module-object)
-                import-return
+            if (and $loading (modules has $name)) {
+                evaluated (modules get $name)
             }
             set module-name $name
         }
 
+        define evaluate-in: method () e {
+            e eval (list define (quote return) $return)
+            e eval (list source $path)
+        }
+
         define module-object: object {
-            source $path
+            evaluate-in
         }
 
+        set loading ()
+
         if (not: null? $module-name) {
             modules set $module-name $module-object
         }
 
-        callback (list $module-object)
+        return $module-object
     }
 
-    set import: method (path) {
-        define response: chan
-
-        request write (method (returned) {
-            response write $returned
-        }) $path
+    define load: method (path) {
+        catch ex {
+            return (list () $ex)
+        }
 
-        define ecex: response read
+        list (evaluate $path)
+    }
 
-        define ex: ecex tail
+    define request-import: method (path) {
+        define response: chan 1
 
-        # TODO: Handle cases where we want to throw ().
-        if (not: null? $ex) {
-            throw $ex
-        }
+        request write $response $path
 
-        return (ecex head)
+        accept (response read)
     }
 
-    define modules: map
-    define request: chan 1
+    set import $request-import
 
     spawn {
         while true {
-            do-import (splice (request read-list))
+            define args: request read-list
+
+            # In a task of its own, as the module may exit.
+            define loader: spawn {
+                load (args get 1)
+            }
+
+            (args head) write (wait $loader)
         }
     }
 }
-- 
2.43.0


From abee634542e40c5f0b4bf13d294899960b6dd5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:54 +0000
Subject: [PATCH 36/49] fix: a script's path is not oh code

---
 internal/system/options/options.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/system/options/options.go b/internal/system/options/options.go
index 3ceee9b..a0b3724 100644
--- a/internal/system/options/options.go
+++ b/internal/system/options/options.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/docopt/docopt-go"
 	"github.com/mattn/go-isatty"
+	"github.com/michaelmacinnis/adapted"
 )
 
 //nolint:gochecknoglobals
@@ -81,7 +82,7 @@ func Parse() {
 
 	path, _ := opts.String("SCRIPT")
 	if path != "" {
-		command = "source " + path
+		command = source(path)
 		name = path
 		script = path
 	} else if command == "" && isatty.IsTerminal(os.Stdin.Fd()) {
@@ -112,6 +113,11 @@ func Monitor() bool {
 	return monitor
 }
 
+// source returns the command to evaluate the file at path.
+func source(path string) string {
+	return "source " + adapted.CanonicalString(path)
+}
+
 // Terminal returns the terminal's integer file descriptor.
 func Terminal() int {
 	return terminal
-- 
2.43.0


From 45a977202326fea69eda02b256e7027cd2393ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:57 +0000
Subject: [PATCH 37/49] fix: commands are read from standard input when it is
 not a terminal

---
 internal/system/options/options.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/system/options/options.go b/internal/system/options/options.go
index a0b3724..4187c4e 100644
--- a/internal/system/options/options.go
+++ b/internal/system/options/options.go
@@ -97,6 +97,10 @@ func Parse() {
 	invertInteractive, _ := opts.Bool("--interactive")
 	interactive = interactive != invertInteractive
 
+	if opts["--command"] == nil && command == "" && !interactive {
+		command = source("/dev/stdin")
+	}
+
 	invertMonitor, _ := opts.Bool("--monitor")
 	monitor = monitor != invertMonitor
 
-- 
2.43.0


From ee83fc8cf8ad6db2f25257b8f25c470df4cfa324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:54 +0000
Subject: [PATCH 38/49] fix: jobs stopped twice, killed while stopped or
 resumed mid-stop were lost; ctrl-C after an external command

Resuming a job with fg left its processes with the old job, so stopping it
again lost them and its command line. An interrupt cleared the stack of a
task that was still running. The terminal stayed with a finished process
group so that nothing received the next ctrl-C.
---
 internal/engine/engine.go       |  9 ++++
 internal/engine/task/state.go   | 56 +++++++++++++++----
 internal/engine/task/task.go    | 19 ++++---
 internal/system/job/job_unix.go | 96 +++++++++++++++++++++------------
 4 files changed, 126 insertions(+), 54 deletions(-)

diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index 0fa4c16..1c1c590 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -95,6 +95,8 @@ func Evaluate(j *job.T, c cell.I) cell.I {
 			code = success(r)
 		}
 
+		onExit()
+
 		os.Exit(code)
 	}
 
@@ -103,6 +105,11 @@ func Evaluate(j *job.T, c cell.I) cell.I {
 	return r
 }
 
+// OnExit registers the function to be called before a command ends the process.
+func OnExit(fn func()) {
+	onExit = fn
+}
+
 // Resolve returns the string value for a variable.
 func Resolve(k string) (v string) {
 	defer func() {
@@ -144,6 +151,8 @@ var (
 	env0   scope.I
 	frame0 *frame.T
 	scope0 scope.I
+
+	onExit = func() {}
 )
 
 func bg(t *task.T) task.Op {
diff --git a/internal/engine/task/state.go b/internal/engine/task/state.go
index 2c449dc..de27d8a 100644
--- a/internal/engine/task/state.go
+++ b/internal/engine/task/state.go
@@ -29,10 +29,12 @@ type state struct {
 
 	result cell.I
 
-	exited   bool
-	running  bool
-	stopping bool
-	waiting  bool
+	exited      bool
+	interrupted bool
+	resumed     bool
+	running     bool
+	stopping    bool
+	waiting     bool
 }
 
 func fresh() *state {
@@ -55,6 +57,15 @@ func (s *state) Exited() bool {
 	return s.exited
 }
 
+// Interrupt stops a running task and marks it as interrupted.
+func (s *state) Interrupt() {
+	s.Lock()
+	s.interrupted = s.running || s.stopping
+	s.Unlock()
+
+	s.Stop()
+}
+
 // Notify notifies a waiting task that it can continue. If running is set,
 // the condition variable resume is used to signal the task to resume.
 // Calling this on a task that is not waiting results in a panic.
@@ -80,6 +91,26 @@ func (s *state) Notify(r cell.I) {
 	}
 }
 
+// Resume undoes Stop. It returns true if the task has stopped and must be run
+// again. A task that has not yet returned from Run either never stops or, if
+// it is too late for that, is reported as resumed by Stopped.
+func (s *state) Resume() bool {
+	s.Lock()
+	defer s.Unlock()
+
+	if !s.running && !s.stopping {
+		return true
+	}
+
+	if s.running {
+		s.stopping = false
+	} else {
+		s.resumed = true
+	}
+
+	return false
+}
+
 // Runnable returns true if a task is running and not stopping or waiting.
 // If the task is waiting and not stopping Runnable blocks until signaled via
 // the resume condition variable.
@@ -139,7 +170,7 @@ func (s *state) Started() {
 // 1 0 0 -> 0 0 0 waits for stopped signal
 // 1 0 1 -> 0 0 1 resumes tasks, waits for stopped signal.
 //
-func (s *state) Stop(f func()) {
+func (s *state) Stop() {
 	s.Lock()
 	defer s.Unlock()
 
@@ -154,10 +185,6 @@ func (s *state) Stop(f func()) {
 
 	s.stopping = true
 
-	if f != nil {
-		f()
-	}
-
 	if s.waiting {
 		s.resume.Signal()
 	}
@@ -168,24 +195,31 @@ func (s *state) Stop(f func()) {
 }
 
 // Stopped clears running and stopping and if stopping was set, signals that
-// the task has stopped.
+// the task has stopped. It returns whether, since it was last running, the task
+// was interrupted and whether it was resumed.
 //
 // R S W -> R S W
 // X 0 X -> 0 0 X
 // 0 1 X -> 0 0 X signals task has stopped.
 //
-func (s *state) Stopped() {
+func (s *state) Stopped() (interrupted, resumed bool) {
 	s.Lock()
 	defer s.Unlock()
 
 	signal := s.stopping
 
+	interrupted, resumed = s.interrupted, s.resumed
+
+	s.interrupted = false
+	s.resumed = false
 	s.running = false
 	s.stopping = false
 
 	if signal {
 		s.stopped.Signal()
 	}
+
+	return interrupted, resumed
 }
 
 // Value returns the most recent value set by notify.
diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index 71e62ba..8565943 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -145,13 +145,6 @@ func (t *T) Environ() []string {
 	return environ
 }
 
-// Interrupt stops the task.
-func (t *T) Interrupt() {
-	t.state.Stop(func() {
-		t.stack = done
-	})
-}
-
 // Return is a helper used by actions to return a value.
 func (t *T) Return(c cell.I) Op {
 	t.ReplaceResult(c)
@@ -218,9 +211,15 @@ func (t *T) Step(s Op) (op Op) {
 	return op
 }
 
-// Stop stops a task but allows for it to be restarted.
-func (t *T) Stop() {
-	t.state.Stop(nil)
+// Stopped records that the task has returned from Run. An interrupted task has
+// nothing more to do. It returns true if the task was resumed in the meantime.
+func (t *T) Stopped() bool {
+	interrupted, resumed := t.state.Stopped()
+	if interrupted {
+		t.stack = done
+	}
+
+	return resumed && !t.Completed()
 }
 
 // escape returns a pattern that matches only the directory path if path has
diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 91137bf..051d19a 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -30,6 +30,9 @@ type T struct {
 
 	running map[int]*task.T
 	stopped map[int]*task.T
+
+	// Suspended is true from when the job is stopped until it is resumed.
+	suspended bool
 }
 
 type job = T
@@ -184,11 +187,18 @@ func (j *job) Spawn(p, c *task.T, fn func()) {
 
 func (j *job) Stopped(t *task.T) {
 	requestq <- func() {
-		t.Stopped()
+		if t.Stopped() {
+			// Resumed before it had finished stopping.
+			go t.Run()
+
+			return
+		}
 
 		if !t.Completed() {
-			if foreground != nil && foreground.main == t {
-				tell(t)
+			if j.main == t {
+				if j == foreground {
+					tell(t)
+				}
 
 				number := 1
 				for n := range jobs {
@@ -196,7 +206,7 @@ func (j *job) Stopped(t *task.T) {
 						number = n + 1
 					}
 				}
-				jobs[number] = foreground
+				jobs[number] = j
 
 				printJobs(os.Stdout, number)
 			}
@@ -244,12 +254,7 @@ func Bg(w io.Writer, n int) *task.T {
 			fmt.Fprintf(w, "%s\n", line)
 		}
 
-		for pid, t := range j.stopped {
-			process.Continue(pid)
-			j.running[pid] = t
-		}
-
-		go j.main.Run()
+		j.resume()
 
 		r <- j.main
 
@@ -282,15 +287,18 @@ func Fg(w io.Writer, n int) bool {
 			return
 		}
 
-		wgs := waiting[foreground.main]
-		for wg := range wgs {
-			wg.on[j.main] = wg.on[foreground.main]
+		// Whatever is waiting for the current job now waits for this one.
+		if waiting[j.main] == nil {
+			waiting[j.main] = map[*wg]struct{}{}
+		}
+		for wg := range waiting[foreground.main] {
+			wg.on[j.main] = struct{}{}
 			delete(wg.on, foreground.main)
+			waiting[j.main][wg] = struct{}{}
 		}
-		waiting[j.main] = waiting[foreground.main]
 		delete(waiting, foreground.main)
 
-		foreground.main = j.main
+		foreground = j
 
 		delete(jobs, n)
 
@@ -304,12 +312,7 @@ func Fg(w io.Writer, n int) bool {
 			process.SetForegroundGroup(process.Group())
 		}
 
-		for pid, t := range j.stopped {
-			process.Continue(pid)
-			j.running[pid] = t
-		}
-
-		go foreground.main.Run()
+		j.resume()
 
 		r <- true
 
@@ -390,23 +393,33 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 	if ws.Continued() {
 		t, found := j.stopped[pid]
 		if !found {
-			println("UNKNOWN PID CONTINUED", pid)
-
+			// The job was resumed.
 			return
 		}
 
-		if len(j.stopped) == 1 {
+		j.running[pid] = t
+		delete(j.stopped, pid)
+
+		if j.suspended && len(j.stopped) == 0 {
 			// The last stopped process is running. Resume the job.
+			for n, v := range jobs {
+				if v == j {
+					delete(jobs, n)
+				}
+			}
+
 			j.resume()
 		}
 
-		j.running[pid] = t
-		delete(j.stopped, pid)
-
 		return
 	}
 
 	t, found := j.running[pid]
+	if !found {
+		// A process can be killed while it is stopped.
+		t, found = j.stopped[pid]
+	}
+
 	if !found {
 		println("UNKNOWN PID STATUS CHANGE", pid)
 
@@ -414,14 +427,14 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 	}
 
 	if ws.Stopped() {
-		if len(j.running) == 1 {
+		j.stopped[pid] = t
+		delete(j.running, pid)
+
+		if len(j.running) == 0 {
 			// The last running process is stopping. Stop the task.
 			j.stop()
 		}
 
-		j.stopped[pid] = t
-		delete(j.running, pid)
-
 		return
 	}
 
@@ -439,24 +452,39 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 	}
 
 	delete(j.running, pid)
+	delete(j.stopped, pid)
 	delete(active, pid)
 
 	if len(j.running) == 0 && len(j.stopped) == 0 {
 		j.group = j.initial
+
+		if options.Monitor() && j == foreground {
+			// There is no longer a process to receive signals from the terminal.
+			process.RestoreForegroundGroup()
+		}
 	}
 
 	t.Notify(status.Int(code))
 }
 
 func (j *job) resume() {
-	resume(j.main)
+	j.suspended = false
+
+	for pid, t := range j.stopped {
+		j.running[pid] = t
+		delete(j.stopped, pid)
+	}
 
 	for pid := range j.running {
 		process.Continue(pid)
 	}
+
+	resume(j.main)
 }
 
 func (j *job) stop() {
+	j.suspended = true
+
 	stop(j.main)
 
 	for pid := range j.running {
@@ -584,8 +612,10 @@ func remove(cs []*task.T, t *task.T) []*task.T {
 func resume(t *task.T) {
 	for _, child := range children[t] {
 		resume(child)
+	}
 
-		go child.Run()
+	if t.Resume() {
+		go t.Run()
 	}
 }
 
-- 
2.43.0


From 70e2a909f77a6cbcbaef2a3b6b0a1fc7510f0571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:54 +0000
Subject: [PATCH 39/49] fix: interactive input lost blank lines, text after a
 complete command and, on exit, the history

Blank lines were dropped in the middle of a command; what followed a
complete command on a line was dropped if it was not complete itself;
lines of abandoned commands were listed as part of the next job; the exit
command ended the session without saving the history.
---
 main.go | 46 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/main.go b/main.go
index 3d86f0a..db383ab 100644
--- a/main.go
+++ b/main.go
@@ -262,11 +262,18 @@ func interactive() bool {
 		println(err.Error())
 	}
 
-	defer func() {
-		err = history.Save(cli.WriteHistory)
+	save := func() {
+		err := history.Save(cli.WriteHistory)
 		if err != nil {
 			println(err.Error())
 		}
+	}
+
+	// The command exit ends the process without returning.
+	engine.OnExit(save)
+
+	defer func() {
+		save()
 
 		_, _ = os.Stdout.Write([]byte{'\n'})
 	}()
@@ -348,6 +355,9 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 	j := job.New(0)
 	r := reader.New(name)
 
+	// The lines of the command being entered.
+	lines := []string{}
+
 	cli.SetWordCompleter(completer(&j, &r))
 	cli.SetTabCompletionStyle(liner.TabPrints)
 
@@ -370,6 +380,7 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 				r.Close()
 				r = reader.New(name)
 				suffix = initial
+				lines = nil
 
 				continue
 			} else {
@@ -382,12 +393,15 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 			return err
 		}
 
-		if line == "" {
+		if line == "" && !r.Pending() {
 			continue
 		}
 
-		cli.AppendHistory(line)
-		j.Append(line)
+		if line != "" {
+			cli.AppendHistory(line)
+		}
+
+		lines = append(lines, line)
 
 		suffix = continued
 
@@ -399,23 +413,41 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 
 			suffix = initial
 			r = reader.New(name)
+			lines = nil
 
 			continue
 		}
 
 		if c != nil {
 			for ; c != nil; c = r.Next() {
+				// Each command is a job of its own. The last one may be stopped.
+				j = job.New(0)
+				for _, s := range lines {
+					j.Append(s)
+				}
+
 				engine.Evaluate(j, c)
 
 				process.RestoreForegroundGroup()
 			}
 
+			// A task the last command left behind may no longer take the terminal.
+			j = job.New(0)
+
+			process.RestoreForegroundGroup()
+
+			if r.Pending() {
+				// The line ended with the start of another command.
+				lines = []string{line}
+
+				continue
+			}
+
 			r.Close()
 
 			suffix = initial
 			r = reader.New(name)
-
-			j = job.New(0)
+			lines = nil
 		}
 	}
 }
-- 
2.43.0


From 951e9008039fb6a1033d04b6fa40558eba785bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:34 +0000
Subject: [PATCH 40/49] fix: stop a job when its last running process ends and
 the others are stopped

---
 internal/system/job/job_unix.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 051d19a..f548a46 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -465,6 +465,11 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 	}
 
 	t.Notify(status.Int(code))
+
+	if len(j.running) == 0 && len(j.stopped) > 0 && !j.suspended {
+		// The last running process ended after the others were stopped.
+		j.stop()
+	}
 }
 
 func (j *job) resume() {
-- 
2.43.0


From a966c6dc41b0d5379dd3ccec24468e5e88322754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:11 +0000
Subject: [PATCH 41/49] fix: a tail call in an if with an else-clause must run
 in bounded memory

---
 internal/engine/task/action.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 931b13b..83390f3 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -482,7 +482,8 @@ func evalBlock(t *T) Op {
 	}
 
 	next := pair.Cdr(t.code)
-	if next == pair.Null {
+	if next == pair.Null || pair.Is(next) && !pair.Is(pair.Car(next)) {
+		// The last command of the block, or before an else-clause.
 		t.RemoveOp()
 	} else {
 		t.PushOp(&registers{code: next})
-- 
2.43.0


From 863efe591da02fa0a4443033193be78c8d5c1265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:38 +0000
Subject: [PATCH 42/49] fix: files in a linked directory, or the root
 directory, must be completed

---
 internal/system/cache/cache.go | 39 ++++++++--------------------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/internal/system/cache/cache.go b/internal/system/cache/cache.go
index 658148c..cda4053 100644
--- a/internal/system/cache/cache.go
+++ b/internal/system/cache/cache.go
@@ -49,8 +49,6 @@ func Executables(dirname string) []string {
 func Files(dirname string) []string {
 	dirname = filepath.Clean(dirname)
 
-	max := strings.Count(dirname, pathSeparator) + 1
-
 	e := []string{}
 	f := []string{}
 
@@ -65,35 +63,18 @@ func Files(dirname string) []string {
 
 	<-done
 
-	original := dirname
-
-	dirname, err := filepath.EvalSymlinks(dirname)
-	if err != nil {
-		dirname = original
-	}
-
-	_ = filepath.Walk(dirname, func(p string, i os.FileInfo, err error) error {
-		if p == dirname {
-			return nil
-		}
-
-		depth := strings.Count(p, pathSeparator)
-		if depth > max {
-			if i.IsDir() {
-				return filepath.SkipDir
-			}
-
-			return nil
-		} else if depth < max {
-			return nil
-		}
+	// Following links here, dirname can be a link to a directory.
+	entries, _ := os.ReadDir(dirname)
+	for _, entry := range entries {
+		p := filepath.Join(dirname, entry.Name())
 
-		if original != dirname {
-			p = strings.Replace(p, dirname, original, 1)
+		i, err := entry.Info()
+		if err != nil {
+			continue
 		}
 
 		switch {
-		case p != pathSeparator && i.IsDir():
+		case i.IsDir():
 			p += pathSeparator
 			e = append(e, p)
 
@@ -102,9 +83,7 @@ func Files(dirname string) []string {
 		}
 
 		f = append(f, p)
-
-		return nil
-	})
+	}
 
 	requestq <- func() {
 		if len(e) > 0 {
-- 
2.43.0


From 75760b02170cd0c17b7d04eabdb797ebbd5a5ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:41 +0000
Subject: [PATCH 43/49] fix: completion must resolve . and .. inside a word, ~
 and directories with a colon

---
 main.go | 136 ++++++++++++++------------------------------------------
 1 file changed, 33 insertions(+), 103 deletions(-)

diff --git a/main.go b/main.go
index db383ab..2a8306a 100644
--- a/main.go
+++ b/main.go
@@ -26,23 +26,7 @@ import (
 )
 
 //nolint:gochecknoglobals
-var (
-	pathListSeparator = string(os.PathListSeparator)
-	pathSeparator     = string(os.PathSeparator)
-)
-
-func clean(s string) string {
-	if s == "." || s == pathSeparator+"." {
-		return s
-	}
-
-	head, tail := split(s)
-	if tail == s {
-		head, tail = tail, head
-	}
-
-	return filepath.Clean(head) + tail
-}
+var pathSeparator = string(os.PathSeparator)
 
 func command() bool {
 	if options.Command() == "" {
@@ -127,7 +111,7 @@ func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []st
 
 			process.RestoreForegroundGroup()
 
-			cs = files(cache.Files, cwd, home, engine.Resolve("PWD"), completing)
+			cs = files(cache.Files, cwd, home, completing)
 
 			cfname := common.String(pair.Car(v))
 			if cfname != "_minimal" && cfname != "_filedir_xspec" {
@@ -157,61 +141,25 @@ func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []st
 	}
 }
 
-func directories(s string) []string {
-	dirs := []string{}
-
-	for _, dir := range strings.Split(s, pathListSeparator) {
-		if dir == "" {
-			dir = "."
-		} else {
-			dir = filepath.Clean(dir)
-		}
-
-		stat, err := os.Stat(dir)
-		if err != nil || !stat.IsDir() {
-			continue
-		}
-
-		dirs = append(dirs, dir)
-	}
-
-	return dirs
-}
-
-func expand(cwd, home, candidate string) (string, bool) {
-	dotdir := false
-	prefix := candidate + "   "
-
+func expand(cwd, home, candidate string) string {
 	switch {
-	case candidate == "":
-		// Leave it as is.
-
-	case prefix[0:2] == "./" || prefix[0:3] == "../":
-		candidate = join(cwd, candidate)
-		dotdir = true
+	case path.IsAbs(candidate):
+		return join(pathSeparator, candidate)
 
-	case prefix[0:1] == "~":
-		candidate = join(home, candidate[1:])
+	case strings.HasPrefix(candidate, "~"):
+		return join(home, candidate[1:])
 
 	default:
-		candidate = clean(candidate)
+		return join(cwd, candidate)
 	}
-
-	return candidate, dotdir
 }
 
-func files(cached func(string) []string, cwd, home, paths, word string) []string {
-	candidate, dotdir := expand(cwd, home, word)
-
-	candidates := []string{candidate}
-	if !path.IsAbs(candidate) && !dotdir {
-		candidates = directories(paths)
-		for k, v := range candidates {
-			candidates[k] = v + pathSeparator + candidate
-		}
+func files(cached func(string) []string, cwd, home, word string) []string {
+	if word == "~" {
+		return []string{word + pathSeparator}
 	}
 
-	return matches(cached, candidates, word)
+	return matches(cached, expand(cwd, home, word), word)
 }
 
 func interactive() bool {
@@ -286,42 +234,37 @@ func interactive() bool {
 	return true
 }
 
-func join(s ...string) string {
-	last := len(s) - 1
-	head, tail := split(s[last])
-	s[last] = head
+// Join adds word to dir. The last part of word, which may be empty, is kept as it is.
+func join(dir, word string) string {
+	head, tail := filepath.Split(word)
+
+	dir = filepath.Join(dir, head)
+	if !strings.HasSuffix(dir, pathSeparator) {
+		dir += pathSeparator
+	}
 
-	return filepath.Join(s...) + tail
+	return dir + tail
 }
 
-func matches(cached func(string) []string, candidates []string, word string) []string {
+func matches(cached func(string) []string, candidate, word string) []string {
 	completions := []string{}
 
-	for _, candidate := range candidates {
-		dirname, basename := filepath.Split(candidate)
+	dirname, basename := filepath.Split(candidate)
 
-		if skip(dirname, basename) {
+	if skip(dirname, basename) {
+		return completions
+	}
+
+	for _, p := range cached(dirname) {
+		if !strings.HasPrefix(p, candidate) {
 			continue
 		}
 
-		for _, p := range cached(dirname) {
-			if candidate != pathSeparator && len(basename) == 0 {
-				suffix := strings.TrimPrefix(p, dirname)
-				if strings.HasPrefix(suffix, ".") {
-					continue
-				}
-			} else if !strings.HasPrefix(p, candidate) {
-				continue
-			}
-
-			if len(candidate) > len(p) {
-				return nil
-			}
-
-			s := strings.Index(p, candidate) + len(candidate)
-			completion := word + p[s:]
-			completions = append(completions, completion)
+		if len(basename) == 0 && strings.HasPrefix(p[len(dirname):], ".") {
+			continue
 		}
+
+		completions = append(completions, word+p[len(candidate):])
 	}
 
 	return completions
@@ -338,19 +281,6 @@ func skip(dirname, basename string) bool {
 	return false
 }
 
-func split(s string) (head, tail string) {
-	head = s
-	tail = ""
-
-	index := strings.LastIndex(s, pathSeparator)
-	if index > -1 {
-		head = s[:index]
-		tail = s[index:]
-	}
-
-	return
-}
-
 func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) error {
 	j := job.New(0)
 	r := reader.New(name)
-- 
2.43.0


From 83c6fb2e009ebbca218b6025bdf4d7fe1d0af926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:37 +0000
Subject: [PATCH 44/49] fix: completion must not cut a line with non-ASCII
 characters in the wrong place

---
 main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 2a8306a..e2af3ca 100644
--- a/main.go
+++ b/main.go
@@ -55,8 +55,9 @@ func command() bool {
 
 func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []string, t string) {
 	return func(s string, n int) (h string, cs []string, t string) {
-		h = s[:n]
-		t = s[n:]
+		// The position n is in characters.
+		h = string([]rune(s)[:n])
+		t = string([]rune(s)[n:])
 
 		last := strings.LastIndexAny(h, " ()")
 		completing := h[last+1:]
-- 
2.43.0


From ec9fcdb4c2d9dc057ff5d99cd6c3868532ab1e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:07 +0000
Subject: [PATCH 45/49] fix: completion must not take the terminal from the
 line editor

---
 main.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/main.go b/main.go
index e2af3ca..5e8e7e7 100644
--- a/main.go
+++ b/main.go
@@ -53,7 +53,7 @@ func command() bool {
 	return true
 }
 
-func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []string, t string) {
+func completer(r **reader.T) func(s string, n int) (h string, cs []string, t string) {
 	return func(s string, n int) (h string, cs []string, t string) {
 		// The position n is in characters.
 		h = string([]rune(s)[:n])
@@ -90,6 +90,9 @@ func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []st
 		cwd := engine.Resolve("PWD")
 		home := engine.Resolve("HOME")
 
+		// The line editor may be about to read. The terminal must stay with oh.
+		j := job.Job(process.Group())
+
 		cmd := lp.Current()
 		if cmd == pair.Null || last < 0 || h[last:last+1] == "(" {
 			if completing == "" {
@@ -99,18 +102,14 @@ func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []st
 			}
 
 			cmd := list.New(sym.New("complete"), sym.New(completing))
-			v, _ := engine.System(*j, cmd)
-
-			process.RestoreForegroundGroup()
+			v, _ := engine.System(j, cmd)
 
 			for c := pair.Cdr(v); c != pair.Null; c = pair.Cdr(c) {
 				cs = append(cs, common.String(pair.Car(c)))
 			}
 		} else {
 			cmd := list.Append(list.New(list.Array(cmd)...), sym.New(completing))
-			v, _ := engine.System(*j, pair.Cons(sym.New("complete"), cmd))
-
-			process.RestoreForegroundGroup()
+			v, _ := engine.System(j, pair.Cons(sym.New("complete"), cmd))
 
 			cs = files(cache.Files, cwd, home, completing)
 
@@ -289,7 +288,7 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 	// The lines of the command being entered.
 	lines := []string{}
 
-	cli.SetWordCompleter(completer(&j, &r))
+	cli.SetWordCompleter(completer(&r))
 	cli.SetTabCompletionStyle(liner.TabPrints)
 
 	continued := str.New("  ")
-- 
2.43.0


From 853bab16000c38dddf8c5809d86373d657bbe202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:05 +0000
Subject: [PATCH 46/49] fix: completion must not evaluate the command being
 entered

---
 main.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 5e8e7e7..678d118 100644
--- a/main.go
+++ b/main.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/michaelmacinnis/oh/internal/common"
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
+	"github.com/michaelmacinnis/oh/internal/common/interface/literal"
 	"github.com/michaelmacinnis/oh/internal/common/type/list"
 	"github.com/michaelmacinnis/oh/internal/common/type/pair"
 	"github.com/michaelmacinnis/oh/internal/common/type/str"
@@ -108,8 +109,17 @@ func completer(r **reader.T) func(s string, n int) (h string, cs []string, t str
 				cs = append(cs, common.String(pair.Car(c)))
 			}
 		} else {
-			cmd := list.Append(list.New(list.Array(cmd)...), sym.New(completing))
-			v, _ := engine.System(j, pair.Cons(sym.New("complete"), cmd))
+			args := []cell.I{sym.New("complete")}
+			for _, c := range list.Array(cmd) {
+				if pair.Is(c) {
+					// The command being entered must not be evaluated.
+					c = str.New(literal.String(c))
+				}
+
+				args = append(args, c)
+			}
+
+			v, _ := engine.System(j, list.New(append(args, sym.New(completing))...))
 
 			cs = files(cache.Files, cwd, home, completing)
 
-- 
2.43.0


From f4d3c321c23ce93f94f797f9864cfc5f59569689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:30 +0000
Subject: [PATCH 47/49] fix: a method passed on by a tail call kept every
 earlier scope

---
 internal/engine/task/action.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 83390f3..ce830d2 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -972,6 +972,13 @@ func bind(a command, self cell.I) *binding {
 		a = b.command
 	}
 
+	if a.Closure().Labels.Self == pair.Null {
+		// A user-defined command that doesn't refer to the scope where
+		// it is found must not keep it (or tail calls that pass on the
+		// command won't run in constant space).
+		self = pair.Null
+	}
+
 	return &binding{a, self}
 }
 
-- 
2.43.0


From 84ab0fd7918d8bc6f6c48e3916b476da3edb85a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:12 +0000
Subject: [PATCH 48/49] fix: the name of a named pipe in a directory like x[1]
 was expanded: process substitutions hung

---
 internal/engine/commands/file.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/engine/commands/file.go b/internal/engine/commands/file.go
index aa09a34..2c30014 100644
--- a/internal/engine/commands/file.go
+++ b/internal/engine/commands/file.go
@@ -10,7 +10,7 @@ import (
 	"github.com/michaelmacinnis/oh/internal/common"
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
 	"github.com/michaelmacinnis/oh/internal/common/type/pipe"
-	"github.com/michaelmacinnis/oh/internal/common/type/sym"
+	"github.com/michaelmacinnis/oh/internal/common/type/str"
 	"github.com/michaelmacinnis/oh/internal/common/validate"
 )
 
@@ -78,5 +78,6 @@ func tempfifo(args cell.I) cell.I {
 		panic(err.Error())
 	}
 
-	return sym.New(name)
+	// Not a symbol, the name must never be expanded.
+	return str.New(name)
 }
-- 
2.43.0


From b3e90be7f8408d8d1c460903971fc4a1715c60e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:37 +0000
Subject: [PATCH 49/49] fix: stop and interrupt tasks spawned as their parent
 is told to stop

---
 internal/engine/task/state.go   |  9 +++++++++
 internal/engine/task/task.go    |  3 +--
 internal/system/job/job_unix.go | 25 ++++++++++++++++++++++---
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/internal/engine/task/state.go b/internal/engine/task/state.go
index de27d8a..58783fb 100644
--- a/internal/engine/task/state.go
+++ b/internal/engine/task/state.go
@@ -140,6 +140,15 @@ func (s *state) Runnable() bool {
 	return s.running
 }
 
+// Stopping returns whether the task has been told to stop but has not stopped
+// yet and whether that is because it was interrupted.
+func (s *state) Stopping() (stopping, interrupted bool) {
+	s.Lock()
+	defer s.Unlock()
+
+	return s.stopping, s.stopping && s.interrupted
+}
+
 // Started marks the task as running.
 // Calling this on a task that is already running results in a panic.
 //
diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index 8565943..60b1d21 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -152,9 +152,8 @@ func (t *T) Return(c cell.I) Op {
 	return t.PreviousOp()
 }
 
-// Run steps through a tasks operations until they are exhausted.
+// Run steps through a started task's operations until they are exhausted.
 func (t *T) Run() {
-	t.Started()
 	defer t.job.Stopped(t)
 
 	s := t.Op()
diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index f548a46..85a0682 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -175,7 +175,18 @@ func (j *job) Spawn(p, c *task.T, fn func()) {
 			wgs[w] = struct{}{}
 		}
 
-		go c.Run()
+		start(c)
+
+		if p != nil {
+			// The parent may have been told to stop before it got here.
+			switch stopping, interrupted := p.Stopping(); {
+			case interrupted:
+				c.Interrupt()
+
+			case stopping:
+				c.Stop()
+			}
+		}
 
 		// Ack.
 		close(done)
@@ -189,7 +200,7 @@ func (j *job) Stopped(t *task.T) {
 	requestq <- func() {
 		if t.Stopped() {
 			// Resumed before it had finished stopping.
-			go t.Run()
+			start(t)
 
 			return
 		}
@@ -620,10 +631,18 @@ func resume(t *task.T) {
 	}
 
 	if t.Resume() {
-		go t.Run()
+		start(t)
 	}
 }
 
+// start runs the task t. The task counts as running once start returns so that
+// it can be stopped.
+func start(t *task.T) {
+	t.Started()
+
+	go t.Run()
+}
+
 func stop(t *task.T) {
 	for _, child := range children[t] {
 		stop(child)
-- 
2.43.0


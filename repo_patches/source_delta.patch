From 2c09d32728f7271a163e268d3c1cb34554cf2ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 01/21] fix: keep regular expressions and selectors with
 unbalanced quotes when indenting

The line splitting regular expression did not know regular expressions and
selectors, so that text was dropped, if these contained unbalanced quotes.
---
 ast/ast_helper.go | 67 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 10 deletions(-)

diff --git a/ast/ast_helper.go b/ast/ast_helper.go
index 20f165f..78eb041 100644
--- a/ast/ast_helper.go
+++ b/ast/ast_helper.go
@@ -3,17 +3,9 @@ package ast
 import (
 	"bytes"
 	"fmt"
-	"regexp"
 	"strings"
 )
 
-// This regular expression splits the config into indentable chunks that are:
-// * empty line
-// * line of comment
-// * line without any quotes
-// * line(s) with quoted strings, which are kept together to form a single "line of configuration"
-var linesRe = regexp.MustCompile(`(\n|\s*#[^\n]*\n|[^'"\n]*\n|([^"'\n]*("(\\"|[^"])*"|'(\\'|[^'])*')[^"'\n]*)*\n)`)
-
 func prefix(in string, emptyNewline bool) string {
 	if len(in) == 0 {
 		if emptyNewline {
@@ -24,8 +16,11 @@ func prefix(in string, emptyNewline bool) string {
 
 	var s bytes.Buffer
 	s.WriteString("\n")
-	lines := linesRe.FindAllString(strings.TrimRight(in, "\n")+"\n", -1)
-	for _, l := range lines {
+	in = strings.TrimRight(in, "\n") + "\n"
+	for len(in) > 0 {
+		n := lineLen(in)
+		l := in[:n]
+		in = in[n:]
 		if len(strings.TrimLeft(l, " \n")) == 0 {
 			s.WriteString("\n")
 			continue
@@ -34,3 +29,55 @@ func prefix(in string, emptyNewline bool) string {
 	}
 	return s.String()
 }
+
+// lineLen returns the length of the first indentable chunk of the config in
+// (including the trailing newline), which is one of:
+//   - empty line
+//   - line of comment
+//   - line(s) of configuration, where quoted strings, regular expressions and
+//     selectors, which span multiple lines, are kept together to form a single
+//     "line of configuration"
+func lineLen(in string) int {
+	for i := 0; i < len(in); {
+		switch c := in[i]; c {
+		case '\n':
+			return i + 1
+		case '#':
+			if n := strings.IndexByte(in[i:], '\n'); n >= 0 {
+				return i + n + 1
+			}
+			return len(in)
+		case '"', '\'', '/':
+			i += enclosedLen(in[i:], c)
+		case '[':
+			i += selectorElementLen(in[i:])
+		default:
+			i++
+		}
+	}
+	return len(in)
+}
+
+// enclosedLen returns the length of the value at the start of in, which is
+// enclosed by delim, or 1 if there is no closing delimiter.
+func enclosedLen(in string, delim byte) int {
+	for i := 1; i < len(in); i++ {
+		switch {
+		case in[i] == '\\' && i+1 < len(in) && in[i+1] == delim:
+			i++
+		case in[i] == delim:
+			return i + 1
+		}
+	}
+	return 1
+}
+
+// selectorElementLen returns the length of the selector element at the start of
+// in or 1, if there is an array, which always has its elements on separate lines.
+func selectorElementLen(in string) int {
+	n := strings.IndexAny(in[1:], "[],")
+	if n <= 0 || in[1] == '\n' || in[1+n] != ']' {
+		return 1
+	}
+	return n + 2
+}
-- 
2.43.0


From e89419ba97abbc7cca30d878e7fbd851a465f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 02/21] fix: print numbers without loss of value

Numbers with more than 10 decimal places have been printed as 0.
---
 ast/ast.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 30ac8cb..242293d 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 )
 
@@ -483,7 +484,11 @@ func (na NumberAttribute) ValueString() string {
 		if float64(int64(na.Value())+0) == na.Value() {
 			return fmt.Sprintf("%d", int64(na.Value()))
 		}
-		return strings.TrimRight(fmt.Sprintf("%.10f", na.Value()), "0")
+		value = strings.TrimRight(fmt.Sprintf("%.10f", na.Value()), "0")
+		if f, err := strconv.ParseFloat(value, 64); err != nil || f != na.Value() {
+			// The value does not fit in 10 decimal places.
+			return strconv.FormatFloat(na.Value(), 'f', -1, 64)
+		}
 	}
 	return value
 }
-- 
2.43.0


From 316fc0983b8e321477c9c10564c6f2c2f5405c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 03/21] fix: print the comments of each plugin section

The comments of the first section of a type have been repeated for all the
other sections of this type and the comments of these have been lost.
---
 ast/ast.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 242293d..7314cf0 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -147,9 +147,7 @@ func pluginSectionString(pluginType string, ps []PluginSection) string {
 
 	var s bytes.Buffer
 	for i, p := range ps {
-		if len(ps) > 0 {
-			s.WriteString(ps[0].CommentBlock.String())
-		}
+		s.WriteString(p.CommentBlock.String())
 		s.WriteString(fmt.Sprint(pluginType + " {"))
 		s.WriteString(prefix(p.String(), false))
 		s.WriteString(prefix(p.FooterComment.String(), false))
-- 
2.43.0


From ef90c5d68de39f2b6270bee07c75b87abe2770de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 04/21] fix: do not insert an empty line before the first
 comment of a block

White space only lines in front of the first comment added an empty line in
front of this comment, so that formatting was not stable.
---
 logstash_config_helper.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index c60e9f1..e619e40 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -147,10 +147,10 @@ func (c *current) comment() ([]ast.Comment, error) {
 
 	var commentLines []ast.Comment
 	var space bool
-	for i, line := range lines {
+	for _, line := range lines {
 		idx := strings.Index(line, "#")
 		if idx == -1 {
-			if i > 0 {
+			if len(commentLines) > 0 {
 				space = true
 			}
 			continue
-- 
2.43.0


From 46a2b4e04e19b63f1e2f1c9b60290e6c759fff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 05/21] fix: reject a plugin as first element of an array

The plugin has been dropped silently, whereas it is rejected as any further
element of the array.
---
 logstash_config_helper.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index e619e40..7e2c859 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -201,7 +201,10 @@ func (c *current) plugin(name1, attributes1, comment1, footerComment1 interface{
 }
 
 func (c *current) attributes(attribute1, attributes1, comment1 interface{}) ([]ast.Attribute, error) {
-	attribute, _ := c.attributeComment(attribute1, comment1, false)
+	attribute, err := c.attributeComment(attribute1, comment1, false)
+	if err != nil {
+		return nil, err
+	}
 	iattributes := toIfaceSlice(attribute)
 	iattributes = append(iattributes, toIfaceSlice(attributes1)...)
 
-- 
2.43.0


From 9ed00705a2f33833ea0e8b0827fd722120bf1ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 06/21] fix: set the position of numbers, arrays and hashes

Numbers, arrays and hashes, which are part of an array, a hash or a condition
did not have a position.
---
 logstash_config_helper.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 7e2c859..b515cec 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -310,7 +310,9 @@ func (c *current) number() (ast.NumberAttribute, error) {
 		// TODO: is this possible to happen? are all values, which are valid floats in Logstash/Ruby also valid floats in Go?
 		return ast.NumberAttribute{}, err
 	}
-	return ast.NewNumberAttribute("", f), nil
+	n := ast.NewNumberAttribute("", f)
+	n.Start = c.astPos()
+	return n, nil
 }
 
 func (c *current) array(attributes1, footerComment1 interface{}) (ast.ArrayAttribute, error) {
@@ -320,7 +322,7 @@ func (c *current) array(attributes1, footerComment1 interface{}) (ast.ArrayAttri
 	}
 
 	a := ast.NewArrayAttribute("", attributes...)
-
+	a.Start = c.astPos()
 	a.FooterComment = c.commentBlock(footerComment1, false, false)
 
 	return a, nil
@@ -333,7 +335,7 @@ func (c *current) hash(attributes1, footerComment1 interface{}) (ast.HashAttribu
 	}
 
 	a := ast.NewHashAttribute("", hashentries...)
-
+	a.Start = c.astPos()
 	a.FooterComment = c.commentBlock(footerComment1, false, false)
 
 	return a, nil
-- 
2.43.0


From 17c77c9fea0d14cc618b8227c900972924181804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 07/21] fix: keep selectors, which start with a line break,
 when indenting

A selector, which starts with a line break, has been taken as an array, whose
lines are indented, which changed the name of the selected field.
---
 ast/ast_helper.go | 59 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/ast/ast_helper.go b/ast/ast_helper.go
index 78eb041..e2ee30f 100644
--- a/ast/ast_helper.go
+++ b/ast/ast_helper.go
@@ -3,6 +3,7 @@ package ast
 import (
 	"bytes"
 	"fmt"
+	"regexp"
 	"strings"
 )
 
@@ -17,8 +18,9 @@ func prefix(in string, emptyNewline bool) string {
 	var s bytes.Buffer
 	s.WriteString("\n")
 	in = strings.TrimRight(in, "\n") + "\n"
+	var cond condition
 	for len(in) > 0 {
-		n := lineLen(in)
+		n := lineLen(in, &cond)
 		l := in[:n]
 		in = in[n:]
 		if len(strings.TrimLeft(l, " \n")) == 0 {
@@ -30,34 +32,57 @@ func prefix(in string, emptyNewline bool) string {
 	return s.String()
 }
 
+// condRe matches the start of a condition at the beginning of a line.
+var condRe = regexp.MustCompile(`^[ \t]*(} )?(else )?if [^={]`)
+
 // lineLen returns the length of the first indentable chunk of the config in
-// (including the trailing newline), which is one of:
-//   - empty line
-//   - line of comment
-//   - line(s) of configuration, where quoted strings, regular expressions and
-//     selectors, which span multiple lines, are kept together to form a single
-//     "line of configuration"
-func lineLen(in string) int {
+// (including the trailing newline), which is either an empty line, a line of
+// comment or a line of configuration. Quoted strings, regular expressions and
+// selectors, which span multiple lines, are kept together to form a single
+// line of configuration. Selectors are only found in conditions, which might
+// span multiple chunks, so the state of the current condition is kept in cond.
+func lineLen(in string, cond *condition) int {
+	if !cond.active && condRe.MatchString(in) {
+		*cond = condition{active: true}
+	}
 	for i := 0; i < len(in); {
+		n := 1
 		switch c := in[i]; c {
 		case '\n':
 			return i + 1
 		case '#':
-			if n := strings.IndexByte(in[i:], '\n'); n >= 0 {
-				return i + n + 1
+			n = len(in) - i
+			if nl := strings.IndexByte(in[i:], '\n'); nl >= 0 {
+				n = nl
 			}
-			return len(in)
 		case '"', '\'', '/':
-			i += enclosedLen(in[i:], c)
+			n = enclosedLen(in[i:], c)
 		case '[':
-			i += selectorElementLen(in[i:])
-		default:
-			i++
+			if cond.active && cond.arrays == 0 {
+				n = selectorElementLen(in[i:])
+			}
+			if n == 1 {
+				cond.arrays++
+			}
+		case ']':
+			cond.arrays--
+		case '{':
+			if cond.arrays == 0 {
+				cond.active = false
+			}
 		}
+		i += n
 	}
 	return len(in)
 }
 
+// condition is the state of a condition: active within a condition, arrays is
+// the nesting level of arrays within the condition.
+type condition struct {
+	active bool
+	arrays int
+}
+
 // enclosedLen returns the length of the value at the start of in, which is
 // enclosed by delim, or 1 if there is no closing delimiter.
 func enclosedLen(in string, delim byte) int {
@@ -73,10 +98,10 @@ func enclosedLen(in string, delim byte) int {
 }
 
 // selectorElementLen returns the length of the selector element at the start of
-// in or 1, if there is an array, which always has its elements on separate lines.
+// in or 1, if there is an array.
 func selectorElementLen(in string) int {
 	n := strings.IndexAny(in[1:], "[],")
-	if n <= 0 || in[1] == '\n' || in[1+n] != ']' {
+	if n <= 0 || in[1+n] != ']' {
 		return 1
 	}
 	return n + 2
-- 
2.43.0


From 5d28b1f707b90b3540881031c7b1605bcb305e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 08/21] fix: keep the empty line after the comment of a plugin
 section stable

The empty line has only been kept for the first section of the config, but
the order of the sections changes if these are printed by type.
---
 logstash_config_helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index b515cec..37e19bc 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -74,7 +74,7 @@ func (c *current) configSection(ps1, psComment1 interface{}) (ast.PluginSection,
 		return ast.PluginSection{}, fmt.Errorf("Value is not a PluginSection: %#v", ps1)
 	}
 
-	psComments := c.commentBlock(psComment1, false, false)
+	psComments := c.commentBlock(psComment1, false, true)
 
 	ps.CommentBlock = psComments
 
-- 
2.43.0


From db89b27563712ac5f87b758fb56225aa34f2fd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:49 +0000
Subject: [PATCH 09/21] fix: make concurrent parsing free of data races

The farthest failure was kept in a global variable without synchronization,
which has been read and written by all the concurrently running parsers.
---
 logstash_config_helper.go |  2 +-
 parse_error_helper.go     | 38 ++++++++++++++++++++++++++++++--------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 37e19bc..73eb375 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -28,7 +28,7 @@ func (c *current) initState() error {
 }
 
 func (c *current) initParser() (bool, error) {
-	farthestFailure = []errPos{}
+	c.setFarthestFailure([]errPos{})
 	return true, nil
 }
 
diff --git a/parse_error_helper.go b/parse_error_helper.go
index ac32c01..f209b13 100644
--- a/parse_error_helper.go
+++ b/parse_error_helper.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+	"sync"
 )
 
 type errPos struct {
@@ -12,11 +13,31 @@ type errPos struct {
 	pos int
 }
 
-var farthestFailure []errPos
+const farthestFailureKey = "__farthestFailure"
+
+// farthestFailure contains the farthest failures of the parser, which most
+// recently recorded a failure.
+var (
+	farthestFailureMu sync.Mutex
+	farthestFailure   []errPos
+)
+
+// setFarthestFailure sets the farthest failures of the current parser.
+func (c *current) setFarthestFailure(failures []errPos) {
+	c.globalStore[farthestFailureKey] = failures
+
+	farthestFailureMu.Lock()
+	defer farthestFailureMu.Unlock()
+	farthestFailure = failures
+}
 
 // GetFarthestFailure returns the farthest position where the parser had a parse error.
 // The farthest position is normally close to the real source for the error.
 func GetFarthestFailure() (string, bool) {
+	farthestFailureMu.Lock()
+	farthestFailure := farthestFailure
+	farthestFailureMu.Unlock()
+
 	if len(farthestFailure) > 0 {
 		var bb bytes.Buffer
 		bb.WriteString(fmt.Sprintf("Parsing error at pos %s and [%d] (after: '%s'):\n", farthestFailure[0].c.pos, farthestFailure[0].pos, showNewline(string(farthestFailure[0].c.text))))
@@ -44,16 +65,17 @@ func pos(c *current) int {
 // The assumption is, that the longest successful parse tree is the most acurate.
 func (c *current) pushError(errorMsg string) (bool, error) {
 	pos := pos(c)
-	if len(farthestFailure) == 0 || pos > farthestFailure[0].pos {
-		farthestFailure = []errPos{{msg: errorMsg, c: *c, pos: pos}}
+	failures, _ := c.globalStore[farthestFailureKey].([]errPos)
+	if len(failures) == 0 || pos > failures[0].pos {
+		c.setFarthestFailure([]errPos{{msg: errorMsg, c: *c, pos: pos}})
 	} else {
-		if pos == farthestFailure[0].pos {
-			for _, failure := range farthestFailure {
+		if pos == failures[0].pos {
+			for _, failure := range failures {
 				if failure.msg == errorMsg {
 					return false, nil
 				}
 			}
-			farthestFailure = append(farthestFailure, errPos{msg: errorMsg, c: *c, pos: pos})
+			c.setFarthestFailure(append(failures, errPos{msg: errorMsg, c: *c, pos: pos}))
 		}
 	}
 	return false, nil
@@ -63,13 +85,13 @@ func (c *current) pushError(errorMsg string) (bool, error) {
 // In most cases this is a missing closing character of a pair, which was opened before.
 // Example: a missing closing square bracket or a missing closing double quote.
 func (c *current) fatalError(errorMsg string) (bool, error) {
-	farthestFailure = []errPos{
+	c.setFarthestFailure([]errPos{
 		{
 			msg: errorMsg,
 			c:   *c,
 			pos: pos(c),
 		},
-	}
+	})
 	var bb bytes.Buffer
 	bb.WriteString(fmt.Sprintf("Parsing error at pos %s and [%d] (after: '%s'):\n", c.pos, pos(c), showNewline(string(c.text))))
 	bb.WriteString(fmt.Sprintf("-> %s\n", errorMsg))
-- 
2.43.0


From 332b02ebc2d520d35739a609aaba1489d28c0fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 10/21] fix: keep the cursor on the current plugin after
 InsertBefore

The cursor pointed to the inserted plugin, so that a subsequent Delete, Replace
or InsertAfter affected this plugin instead of the current one.
---
 ast/astutil/apply.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/astutil/apply.go b/ast/astutil/apply.go
index 24c9e57..479ed9a 100644
--- a/ast/astutil/apply.go
+++ b/ast/astutil/apply.go
@@ -123,7 +123,7 @@ func (c *Cursor) InsertBefore(p ast.BranchOrPlugin) {
 		panic("InsertBefore plugin not contained in slice")
 	}
 	c.parent = append(c.parent[:i], append([]ast.BranchOrPlugin{p}, c.parent[i:]...)...)
-	c.iter.step++
+	c.iter.index++
 }
 
 // InsertAfter inserts p after the current Plugin in its containing slice.
-- 
2.43.0


From 22a12e646a979ad21d435d2a0f7a1196381de7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 11/21] fix: detect unescaped quotes at the start and
 backslashes at the end of a value

Quote and QuoteWithEscape did not recognize an unescaped quote, if it was the
first or second character of the value. Quote did return an unterminated string
for values with a trailing backslash.
---
 ast/astutil/quote.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ast/astutil/quote.go b/ast/astutil/quote.go
index 206482d..bf5055e 100644
--- a/ast/astutil/quote.go
+++ b/ast/astutil/quote.go
@@ -2,8 +2,9 @@ package astutil
 
 import (
 	"bytes"
-	"errors"
+	"fmt"
 	"regexp"
+	"strings"
 
 	"github.com/breml/logstash-config/ast"
 )
@@ -19,20 +20,23 @@ func Quote(value string, quoteType ast.StringAttributeType) (string, error) {
 		var hasQuote bool
 		quote := quoteType.String()[0]
 		for i := 0; i < len(value); i++ {
-			if value[i] == quote && i > 1 && value[i-1] != '\\' {
+			if value[i] == quote && (i == 0 || value[i-1] != '\\') {
 				hasQuote = true
 				break
 			}
 		}
 
 		if hasQuote {
-			return "", errors.New("value %q contains unescaped quotes and can not be quoted without escaping")
+			return "", fmt.Errorf("value %q contains unescaped quotes and can not be quoted without escaping", value)
+		}
+		if strings.HasSuffix(value, `\`) {
+			return "", fmt.Errorf("value %q ends with a backslash, which would escape the closing quote", value)
 		}
 		return quoteType.String() + value + quoteType.String(), nil
 
 	case ast.Bareword:
 		if !barewordRe.MatchString(value) {
-			return "", errors.New("value %q contains non bareword characters and can not be quoted as bareword without escaping")
+			return "", fmt.Errorf("value %q contains non bareword characters and can not be quoted as bareword without escaping", value)
 		}
 		return value, nil
 
@@ -67,7 +71,7 @@ func escapeQuotes(value string, quote byte) string {
 	b := []byte(value)
 
 	for i := 0; i < len(b); i++ {
-		if b[i] == quote && (i == 0 || i > 1 && b[i-1] != '\\') {
+		if b[i] == quote && (i == 0 || b[i-1] != '\\') {
 			b = append(b[:i], append([]byte{'\\'}, b[i:]...)...)
 		}
 	}
-- 
2.43.0


From 3a9a2028be70f7baf59896156b3c424acc82d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 12/21] fix: do not panic in check and lint, if a file does not
 exist

---
 internal/app/check/check.go | 1 +
 internal/app/lint/lint.go   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/app/check/check.go b/internal/app/check/check.go
index 507c040..8225fbd 100644
--- a/internal/app/check/check.go
+++ b/internal/app/check/check.go
@@ -24,6 +24,7 @@ func (f Check) Run(args []string) error {
 		stat, err := os.Stat(filename)
 		if err != nil {
 			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
 		}
 		if stat.IsDir() {
 			continue
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 37f83f8..744fa5c 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -31,6 +31,7 @@ func (l Lint) Run(args []string) error {
 		stat, err := os.Stat(filename)
 		if err != nil {
 			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
 		}
 		if stat.IsDir() {
 			continue
-- 
2.43.0


From 17d1366da02717fe5a3cff073ea2bf8a55869812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 13/21] fix: do not report parsing errors of other files for
 files, which can not be read

If a file could not be read, the farthest failure is still the one of the file
parsed before.
---
 internal/app/check/check.go   | 8 +++++++-
 internal/app/format/format.go | 7 ++++++-
 internal/app/lint/lint.go     | 8 +++++++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/internal/app/check/check.go b/internal/app/check/check.go
index 8225fbd..8c90c3f 100644
--- a/internal/app/check/check.go
+++ b/internal/app/check/check.go
@@ -30,7 +30,13 @@ func (f Check) Run(args []string) error {
 			continue
 		}
 
-		_, err = config.ParseFile(filename, config.IgnoreComments(true))
+		src, err := os.ReadFile(filename)
+		if err != nil {
+			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
+		}
+
+		_, err = config.Parse(filename, src, config.IgnoreComments(true))
 		if err != nil {
 			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
 				if !strings.Contains(err.Error(), errMsg) {
diff --git a/internal/app/format/format.go b/internal/app/format/format.go
index 33ef8f0..b85d340 100644
--- a/internal/app/format/format.go
+++ b/internal/app/format/format.go
@@ -34,7 +34,12 @@ func (f Format) Run(args []string) error {
 			continue
 		}
 
-		c, err := config.ParseFile(filename)
+		src, err := os.ReadFile(filename)
+		if err != nil {
+			return errors.Errorf("%s: %v", filename, err)
+		}
+
+		c, err := config.Parse(filename, src)
 		if err != nil {
 			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
 				if !strings.Contains(err.Error(), errMsg) {
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 744fa5c..d8c8d86 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -37,7 +37,13 @@ func (l Lint) Run(args []string) error {
 			continue
 		}
 
-		c, err := config.ParseFile(filename, config.ExceptionalCommentsWarning(true))
+		src, err := os.ReadFile(filename)
+		if err != nil {
+			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
+		}
+
+		c, err := config.Parse(filename, src, config.ExceptionalCommentsWarning(true))
 		if err != nil {
 			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
 				if !strings.Contains(err.Error(), errMsg) {
-- 
2.43.0


From d5b9be7b8127d49988bf507b352a4b5241322748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 14/21] fix: report errors while writing the formatted config

Errors while writing to stdout and while closing the file have been ignored.
---
 internal/app/format/format.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/app/format/format.go b/internal/app/format/format.go
index b85d340..61f566e 100644
--- a/internal/app/format/format.go
+++ b/internal/app/format/format.go
@@ -49,16 +49,19 @@ func (f Format) Run(args []string) error {
 			return errors.Errorf("%s: %v", filename, err)
 		}
 
+		conf := c.(ast.Config).String()
+
 		if f.writeToSource {
 			err := func() error {
 				f, err := os.Create(filename)
 				if err != nil {
 					return errors.Wrap(err, "failed to open file for writting with automatically fixed ID")
 				}
-				defer f.Close()
 
-				conf := c.(ast.Config)
-				_, err = f.WriteString(conf.String())
+				_, err = f.WriteString(conf)
+				if errClose := f.Close(); err == nil {
+					err = errClose
+				}
 				if err != nil {
 					return errors.Wrap(err, "failed to write file with automatically fixed ID")
 				}
@@ -71,7 +74,9 @@ func (f Format) Run(args []string) error {
 			continue
 		}
 
-		fmt.Fprint(f.out, c)
+		if _, err := fmt.Fprint(f.out, conf); err != nil {
+			return errors.Wrapf(err, "%s: failed to write formatted config", filename)
+		}
 	}
 
 	return nil
-- 
2.43.0


From eaecc7f0cf5a2735267dfe723ce0ac8ec5ef079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 15/21] fix: find the id of a plugin, if the name of the
 attribute is quoted

---
 ast/ast.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 7314cf0..7ce58af 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -301,7 +301,11 @@ func (p Plugin) String() string {
 // the NotFounder interface.
 func (p Plugin) ID() (string, error) {
 	for _, attr := range p.Attributes {
-		if attr != nil && attr.Name() == "id" {
+		if attr == nil {
+			continue
+		}
+		switch attr.Name() {
+		case `id`, `"id"`, `'id'`:
 			switch stringAttr := attr.(type) {
 			case StringAttribute:
 				return stringAttr.value, nil
-- 
2.43.0


From 4dc848624d102c85981b5e02f247ed898fbc5bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 16/21] fix: report errors while closing the file with the
 automatically fixed ids

---
 internal/app/lint/lint.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index d8c8d86..f7e8672 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -92,14 +92,18 @@ func (l Lint) Run(args []string) error {
 
 		if l.autoFixID && v.changed {
 			func() {
+				fixed := conf.String()
+
 				f, err := os.Create(filename)
 				if err != nil {
 					result = multierror.Append(result, errors.Wrap(err, "failed to open file for writting with automatically fixed ID"))
 					return
 				}
-				defer f.Close()
 
-				_, err = f.WriteString(conf.String())
+				_, err = f.WriteString(fixed)
+				if errClose := f.Close(); err == nil {
+					err = errClose
+				}
 				if err != nil {
 					result = multierror.Append(result, errors.Wrap(err, "failed to write file with automatically fixed ID"))
 					return
-- 
2.43.0


From fb2a37d4c184833b0ba50896e59ea69054ed63b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 17/21] fix: do not add a second id to plugins with an id,
 which is not a string

These are reported instead, otherwise an additional id was added with every run.
---
 internal/app/lint/lint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index f7e8672..ba98b43 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -134,7 +134,7 @@ func (v *validator) walk(c *astutil.Cursor) {
 
 	id, err := c.Plugin().ID()
 	if err != nil {
-		if v.autoFixID {
+		if v.autoFixID && ast.IsNotFoundError(err) {
 			v.changed = true
 
 			plugin := c.Plugin()
-- 
2.43.0


From 6ed55388f691f9a8b8d4f684c4303c29e27d2e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 18/21] fix: add a valid id to plugins with a quoted name

The resulting config could not be parsed.
---
 internal/app/lint/lint.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index ba98b43..a4d7cd2 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -129,6 +129,21 @@ type validator struct {
 	allIDs       map[string]struct{}
 }
 
+// newID returns a new id attribute for the plugin.
+func (v *validator) newID(plugin *ast.Plugin) ast.StringAttribute {
+	name, quoteType := plugin.Name(), ast.StringAttributeType(ast.DoubleQuoted)
+	if quote := name[:1]; quote == `"` || quote == `'` {
+		if quote == `'` {
+			quoteType = ast.SingleQuoted
+		}
+		name = name[1 : len(name)-1]
+	}
+
+	id := fmt.Sprintf("%s-%d", name, v.count)
+
+	return ast.NewStringAttribute("id", id, quoteType)
+}
+
 func (v *validator) walk(c *astutil.Cursor) {
 	v.count++
 
@@ -138,7 +153,7 @@ func (v *validator) walk(c *astutil.Cursor) {
 			v.changed = true
 
 			plugin := c.Plugin()
-			plugin.Attributes = append(plugin.Attributes, ast.NewStringAttribute("id", fmt.Sprintf("%s-%d", c.Plugin().Name(), v.count), ast.DoubleQuoted))
+			plugin.Attributes = append(plugin.Attributes, v.newID(plugin))
 
 			c.Replace(plugin)
 		} else {
-- 
2.43.0


From 27023aed9c8b53c83c37ad538c9ca75b6a12ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 19/21] fix: add only ids, which are not already in use

The automatically added id could be the same as the id of an other plugin.
---
 internal/app/lint/lint.go | 43 +++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index a4d7cd2..b77a938 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -60,18 +60,12 @@ func (l Lint) Run(args []string) error {
 
 		v := validator{
 			autoFixID: l.autoFixID,
+			usedIDs:   map[string]struct{}{},
 			allIDs:    map[string]struct{}{},
 		}
 
-		for i := range conf.Input {
-			astutil.ApplyPlugins(conf.Input[i].BranchOrPlugins, v.walk)
-		}
-		for i := range conf.Filter {
-			astutil.ApplyPlugins(conf.Filter[i].BranchOrPlugins, v.walk)
-		}
-		for i := range conf.Output {
-			astutil.ApplyPlugins(conf.Output[i].BranchOrPlugins, v.walk)
-		}
+		applyPlugins(conf, v.collectID)
+		applyPlugins(conf, v.walk)
 
 		if len(v.noIDs) > 0 {
 			errMsg := strings.Builder{}
@@ -120,16 +114,36 @@ func (l Lint) Run(args []string) error {
 	return nil
 }
 
+func applyPlugins(conf ast.Config, applyPluginsFunc astutil.ApplyPluginsFunc) {
+	for i := range conf.Input {
+		astutil.ApplyPlugins(conf.Input[i].BranchOrPlugins, applyPluginsFunc)
+	}
+	for i := range conf.Filter {
+		astutil.ApplyPlugins(conf.Filter[i].BranchOrPlugins, applyPluginsFunc)
+	}
+	for i := range conf.Output {
+		astutil.ApplyPlugins(conf.Output[i].BranchOrPlugins, applyPluginsFunc)
+	}
+}
+
 type validator struct {
 	count        int
 	noIDs        []string
 	autoFixID    bool
 	changed      bool
 	duplicateIDs []string
-	allIDs       map[string]struct{}
+	usedIDs      map[string]struct{} // all the IDs of the config, including the automatically fixed ones
+	allIDs       map[string]struct{} // IDs seen so far
+}
+
+// collectID collects the IDs already present in the config.
+func (v *validator) collectID(c *astutil.Cursor) {
+	if id, err := c.Plugin().ID(); err == nil {
+		v.usedIDs[id] = struct{}{}
+	}
 }
 
-// newID returns a new id attribute for the plugin.
+// newID returns a new id attribute for the plugin with an ID, which is not yet used.
 func (v *validator) newID(plugin *ast.Plugin) ast.StringAttribute {
 	name, quoteType := plugin.Name(), ast.StringAttributeType(ast.DoubleQuoted)
 	if quote := name[:1]; quote == `"` || quote == `'` {
@@ -140,6 +154,13 @@ func (v *validator) newID(plugin *ast.Plugin) ast.StringAttribute {
 	}
 
 	id := fmt.Sprintf("%s-%d", name, v.count)
+	for i := 1; ; i++ {
+		if _, ok := v.usedIDs[id]; !ok {
+			break
+		}
+		id = fmt.Sprintf("%s-%d-%d", name, v.count, i)
+	}
+	v.usedIDs[id] = struct{}{}
 
 	return ast.NewStringAttribute("id", id, quoteType)
 }
-- 
2.43.0


From a2d9857a893305b38d4b1fbd9d9f935da10cd96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 20/21] fix: name the unsupported attribute type in the error

The error for a plugin as element of an array or as value of a hash
printed the complete internal tree including the comments, hence the
same text gave different errors with and without ignored comments.
---
 logstash_config_helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 73eb375..2090c83 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -240,7 +240,7 @@ func (c *current) attributeComment(attribute1, comment1 interface{}, spaceBefore
 		attr.Comment = c.commentBlock(comment1, spaceBefore, false)
 		attribute = attr
 	default:
-		return nil, fmt.Errorf("Unsupported attribute type %#v", attribute1)
+		return nil, fmt.Errorf("Unsupported attribute type %T", attribute1)
 	}
 	return attribute, nil
 }
-- 
2.43.0


From 00e8ff491eaeee4f8d65cce847617bcee0526a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:13 +0000
Subject: [PATCH 21/21] fix: detect the start of a condition cheaply when
 indenting

---
 ast/ast_helper.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ast/ast_helper.go b/ast/ast_helper.go
index e2ee30f..b9e51f5 100644
--- a/ast/ast_helper.go
+++ b/ast/ast_helper.go
@@ -3,7 +3,6 @@ package ast
 import (
 	"bytes"
 	"fmt"
-	"regexp"
 	"strings"
 )
 
@@ -32,8 +31,13 @@ func prefix(in string, emptyNewline bool) string {
 	return s.String()
 }
 
-// condRe matches the start of a condition at the beginning of a line.
-var condRe = regexp.MustCompile(`^[ \t]*(} )?(else )?if [^={]`)
+// startsCondition reports whether in starts with a condition.
+func startsCondition(in string) bool {
+	in = strings.TrimLeft(in, " \t")
+	in = strings.TrimPrefix(in, "} ")
+	in = strings.TrimPrefix(in, "else ")
+	return strings.HasPrefix(in, "if ") && len(in) > 3 && in[3] != '=' && in[3] != '{'
+}
 
 // lineLen returns the length of the first indentable chunk of the config in
 // (including the trailing newline), which is either an empty line, a line of
@@ -42,7 +46,7 @@ var condRe = regexp.MustCompile(`^[ \t]*(} )?(else )?if [^={]`)
 // line of configuration. Selectors are only found in conditions, which might
 // span multiple chunks, so the state of the current condition is kept in cond.
 func lineLen(in string, cond *condition) int {
-	if !cond.active && condRe.MatchString(in) {
+	if !cond.active && startsCondition(in) {
 		*cond = condition{active: true}
 	}
 	for i := 0; i < len(in); {
-- 
2.43.0


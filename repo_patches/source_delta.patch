From 9c54386cefd1fa31eb8c653df4a1421cf3a8201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 01/23] fix: plural form index equal to the number of
 translations panicked

---
 translator/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/file.go b/translator/file.go
index 81617c4..0c21a7b 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -58,7 +58,7 @@ func (file *File) XN64(msgCtxt, msgID, msgIDPlural string, n int64, args ...any)
 		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
 	}
 	index := plural.fn(n)
-	if index < 0 || index >= int(plural.totalForms) || index > len(entry.MsgStrN) || entry.MsgStrN[index] == "" {
+	if index < 0 || index >= int(plural.totalForms) || index >= len(entry.MsgStrN) || entry.MsgStrN[index] == "" {
 		// 超出范围
 		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
 	}
-- 
2.43.0


From a46df50ae39efcd35947301d245d20d7a8cefd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 02/23] fix: ReadPot panicked on a malformed line and lost the
 header to a trailing comment

---
 translator/po.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/translator/po.go b/translator/po.go
index d4d1368..ff5b837 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -33,14 +33,15 @@ func readPo(content []byte, pot bool) (*File, error) {
 	file := new(File)
 	for {
 		entry, err := readEntry(r)
-		if pot || entry.isValid() {
-			file.AddEntry(entry)
+		if err != nil && !errors.Is(err, io.EOF) {
+			return nil, err
 		}
-		if errors.Is(err, io.EOF) {
-			return file, nil
+		// a template keeps its untranslated entries, but a trailing comment is not an entry
+		if entry.isValid() || pot && (entry.MsgID != "" || entry.MsgCtxt != "") {
+			file.AddEntry(entry)
 		}
 		if err != nil {
-			return nil, err
+			return file, nil
 		}
 	}
 }
-- 
2.43.0


From 89140a73fe36639e0e46d8667d625d4f83be2c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 03/23] fix: ReadMo allocated the length a corrupt file claims,
 up to 4 GiB

---
 translator/mo.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/translator/mo.go b/translator/mo.go
index 77cba35..ea40856 100644
--- a/translator/mo.go
+++ b/translator/mo.go
@@ -157,6 +157,10 @@ func ReadMo(content []byte) (*File, error) {
 			return nil, errors.WithSecondaryError(errReadMo,
 				errors.Wrapf(err, "failed to seek to msg_id[%d]: %d", i, msgIDMeta[i].OffSet))
 		}
+		if int64(msgIDMeta[i].Length) > r.Size() {
+			return nil, errors.WithSecondaryError(errReadMo,
+				errors.Errorf("msg_id[%d] is longer than the file: %d", i, msgIDMeta[i].Length))
+		}
 		id := make([]byte, msgIDMeta[i].Length) // msg_id 的长度
 		if err := binary.Read(r, bo, &id); err != nil {
 			return nil, errors.WithSecondaryError(errReadMo,
@@ -168,6 +172,10 @@ func ReadMo(content []byte) (*File, error) {
 			return nil, errors.WithSecondaryError(errReadMo,
 				errors.Wrapf(err, "failed to seek to msg_str[%d]: %d", i, msgStrMeta[i].OffSet))
 		}
+		if int64(msgStrMeta[i].Length) > r.Size() {
+			return nil, errors.WithSecondaryError(errReadMo,
+				errors.Errorf("msg_str[%d] is longer than the file: %d", i, msgStrMeta[i].Length))
+		}
 		str := make([]byte, msgStrMeta[i].Length) // msg_str 的长度
 		if err := binary.Read(r, bo, &str); err != nil {
 			return nil, errors.WithSecondaryError(errReadMo,
-- 
2.43.0


From 9cf4c940eff411844a6f298140e0e8d77327c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 04/23] fix: plural expressions treated non-zero values other
 than 1 as false

---
 plurals/exp.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plurals/exp.go b/plurals/exp.go
index 80a1bd7..378d68f 100644
--- a/plurals/exp.go
+++ b/plurals/exp.go
@@ -112,7 +112,7 @@ func (s *myListener) handleExpPrefix(prefix antlr.Token) {
 		s.stack.Push(^num) // go 使用 ^ 表示按位取反
 	case "!":
 		num, _ := s.stack.Pop()
-		if num == _TRUE {
+		if num != _FALSE {
 			s.stack.Push(_FALSE)
 		} else {
 			s.stack.Push(_TRUE)
@@ -254,7 +254,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
-		if left == _TRUE && right == _TRUE {
+		if left != _FALSE && right != _FALSE {
 			s.stack.Push(_TRUE)
 		} else {
 			s.stack.Push(_FALSE)
@@ -264,7 +264,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
-		if left == _TRUE || right == _TRUE {
+		if left != _FALSE || right != _FALSE {
 			s.stack.Push(_TRUE)
 		} else {
 			s.stack.Push(_FALSE)
@@ -276,7 +276,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			left, _  = s.stack.Pop()
 			cond, _  = s.stack.Pop()
 		)
-		if cond == _TRUE {
+		if cond != _FALSE {
 			s.stack.Push(left)
 		} else {
 			s.stack.Push(right)
-- 
2.43.0


From 89d74b077e67cf81b346b7bd309101ab4c88ae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 05/23] fix: header information went stale when the header
 entry changed and was cached by unsynchronised lookups

---
 translator/entry.go |  2 +-
 translator/file.go  | 58 +++++++++++++++++++++++----------------------
 2 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/translator/entry.go b/translator/entry.go
index 733b0c7..036e7ca 100644
--- a/translator/entry.go
+++ b/translator/entry.go
@@ -24,7 +24,7 @@ func (e *Entry) Key() string {
 
 // isHeader 返回该条目是否是一个 header 条目
 func (e *Entry) isHeader() bool {
-	return e.MsgID == ""
+	return e.MsgID == "" && e.MsgCtxt == ""
 }
 
 // isValid 是否合法的条目
diff --git a/translator/file.go b/translator/file.go
index 0c21a7b..e1f112f 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -85,51 +85,53 @@ func (file *File) AddEntry(e *Entry) {
 	}
 	file.entries[e.Key()] = e
 	if e.isHeader() {
-		file.initHeader()
-		file.initPlural()
+		file.headers = parseHeaders(e)
+		file.plural = parsePlural(file.headers[HeaderPluralForms])
 	}
 }
 
 // GetHeader get header value by key
 func (file *File) GetHeader(key string) (value string, ok bool) {
-	file.initHeader()
-	value, ok = file.headers[key]
+	value, ok = file.getHeaders()[key]
 	return
 }
 
-func (file *File) initHeader() {
+// getHeaders 返回 header 信息；只读，可以并发调用
+func (file *File) getHeaders() map[string]string {
 	if file.headers == nil {
-		headers := make(map[string]string)
 		if headerEntry, ok := file.entries[key("", "")]; ok {
-			kvs := strings.Split(headerEntry.MsgStr, "\n")
-			for _, kv := range kvs {
-				if kv == "" {
-					continue
-				}
-				find := reHeader.FindAllStringSubmatch(kv, -1)
-				if len(find) != 1 || len(find[0]) != 3 {
-					continue
-				}
-				kv := find[0]
-				k := strings.TrimSpace(kv[1])
-				v := strings.TrimSpace(kv[2])
-				if _, ok := headers[k]; !ok {
-					headers[k] = v
-				}
-			}
+			return parseHeaders(headerEntry)
 		}
-		file.headers = headers
 	}
+	return file.headers
 }
 
-func (file *File) getPlural() *plural {
-	file.initPlural()
-	return file.plural
+func parseHeaders(headerEntry *Entry) map[string]string {
+	headers := make(map[string]string)
+	kvs := strings.Split(headerEntry.MsgStr, "\n")
+	for _, kv := range kvs {
+		if kv == "" {
+			continue
+		}
+		find := reHeader.FindAllStringSubmatch(kv, -1)
+		if len(find) != 1 || len(find[0]) != 3 {
+			continue
+		}
+		kv := find[0]
+		k := strings.TrimSpace(kv[1])
+		v := strings.TrimSpace(kv[2])
+		if _, ok := headers[k]; !ok {
+			headers[k] = v
+		}
+	}
+	return headers
 }
 
-func (file *File) initPlural() {
+// getPlural 返回复数信息；只读，可以并发调用
+func (file *File) getPlural() *plural {
 	if file.plural == nil {
 		forms, _ := file.GetHeader(HeaderPluralForms)
-		file.plural = parsePlural(forms)
+		return parsePlural(forms)
 	}
+	return file.plural
 }
-- 
2.43.0


From 7969ce6090f04b6b080bd1e1dc68f19cb984224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 06/23] fix: MostMatchLocale answered for the global
 translations instead of its receiver

---
 translations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/translations.go b/translations.go
index 3ab42b2..967a3b1 100644
--- a/translations.go
+++ b/translations.go
@@ -134,8 +134,8 @@ func (ts *Translations) Locales() (locales []string) {
 
 // MostMatchLocale return the most match language 返回最匹配的语言
 func (ts *Translations) MostMatchLocale() string {
-	var supported = Locales()
-	_, index, _ := Match(supported, []string{Locale()})
+	var supported = ts.Locales()
+	_, index, _ := Match(supported, []string{ts.Locale()})
 	return supported[index]
 }
 
-- 
2.43.0


From 11fbbb7962a6088674780d6c99a9009c5567ec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 07/23] fix: formatting helpers overwrote the element behind a
 caller's argument slice

---
 errors/errors.go | 2 +-
 f/format.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index 241e9d8..4aa1bab 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -10,7 +10,7 @@ func Errorf(format string, args ...any) error {
 }
 
 func Wrapf(err error, format string, args ...any) error {
-	args = append(args, err)
+	args = append(args[:len(args):len(args)], err)
 	return fmt.Errorf(format+": %w", args...)
 }
 
diff --git a/f/format.go b/f/format.go
index 6394180..3b2f229 100644
--- a/f/format.go
+++ b/f/format.go
@@ -17,7 +17,7 @@ func Format(format string, args ...any) string {
 	// 原理：使用索引指定参数位置，在 args 后拼接一个空白字符串，
 	// 然后在格式化字符串上使用 %[n]s 输出拼接的空白字符串，这样就没有多余的参数了
 	// see fmt 包注释，或中文文档 https://studygolang.com/static/pkgdoc/pkg/fmt.htm
-	args = append(args, "")
+	args = append(args[:length:length], "")
 	format = fmt.Sprintf("%s%%[%d]s", format, length+1)
 	return fmt.Sprintf(format, args...)
 }
-- 
2.43.0


From 076d2f52634372b2a89a43972d3e5a2638b469ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 08/23] fix: the fallback for an unknown domain was one shared
 Translation a caller could change for everybody

---
 translations.go | 2 +-
 translaton.go   | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/translations.go b/translations.go
index 967a3b1..3407720 100644
--- a/translations.go
+++ b/translations.go
@@ -184,7 +184,7 @@ func (ts *Translations) GetOrNoop(domain string) *Translation {
 	if tr, ok := ts.domains[domain]; ok {
 		return tr
 	}
-	return trNoop
+	return NewTranslation("")
 }
 
 // D return a new Translations with domain
diff --git a/translaton.go b/translaton.go
index c0a3b3e..4186d16 100644
--- a/translaton.go
+++ b/translaton.go
@@ -14,9 +14,6 @@ const (
 	extMo = ".mo"
 )
 
-// trNoop is a no-op Translation
-var trNoop = NewTranslation("")
-
 // Translation can provide different language translation of a domain
 // tr. [翻译域]包含各个语言的翻译
 type Translation struct {
-- 
2.43.0


From bb42c54e3d26dbd6e8f7a29426e41256f608eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 09/23] fix: entries with equal sort keys were written in
 random order

---
 translator/file.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/translator/file.go b/translator/file.go
index e1f112f..1f9be0b 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -73,7 +73,11 @@ func (file *File) SortedEntry() (entries []*Entry) {
 	sort.Slice(entries, func(i, j int) bool {
 		left := entries[i]
 		right := entries[j]
-		return left.getSortKey() < right.getSortKey()
+		leftKey, rightKey := left.getSortKey(), right.getSortKey()
+		if leftKey != rightKey {
+			return leftKey < rightKey
+		}
+		return left.Key() < right.Key()
 	})
 	return
 }
-- 
2.43.0


From 208d18a1fb76261c817729a65623b5d2a33f7a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 10/23] fix: xtemplate visited the templates of a file in
 random order

---
 cmd/xtemplate/internal/run.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 6bc846b..a58643d 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"text/template/parse"
 
 	"github.com/cockroachdb/errors"
@@ -109,8 +110,10 @@ func resolveOneFile(filename string, ctx *Context) error {
 	if err != nil {
 		return errors.Wrapf(err, t.T("failed to parse file %v"), filename)
 	}
-	// 一个文件可能有多个模板
-	for _, tmpl := range tmpl.Templates() {
+	// 一个文件可能有多个模板；Templates 的顺序不固定，按名称排序以保证输出稳定
+	tmpls := tmpl.Templates()
+	sort.Slice(tmpls, func(i, j int) bool { return tmpls[i].Name() < tmpls[j].Name() })
+	for _, tmpl := range tmpls {
 		resolveTmpl(filename, ctx, tmpl)
 	}
 	return nil
-- 
2.43.0


From 2d6fdab5912cbac975ac0f4c480cf49a50ba74d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 11/23] fix: xtemplate ignored keywords whose positions are not
 the first arguments

---
 cmd/xtemplate/internal/run.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index a58643d..2400abc 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -253,29 +253,24 @@ func filter(ctx *Context, line, name string, nameIndex int, args []parse.Node) {
 	argLength := len(args)
 	for _, kw := range ctx.Keywords {
 		if kw.Name == name {
-			argCount := 1 // MsgID 始终需要
-			if kw.MsgCtxt > 0 && kw.MsgCtxt != kw.MsgID {
-				argCount++
-			}
-			if kw.MsgID2 > 0 && kw.MsgID2 != kw.MsgID && kw.MsgID2 != kw.MsgCtxt {
-				argCount++
-			}
-			lastIndex := argCount + nameIndex
-			if lastIndex >= argLength {
-				ctx.debugPrint("  >  >  >  ID=%v too few args", name)
-				continue
-			}
 			argOK := true
 			m := make(map[int]string)
-			for i := nameIndex + 1; i <= lastIndex; i++ {
-				arg := args[i]
-				text, ok := stringLiteral(arg)
+			for _, pos := range []int{kw.MsgCtxt, kw.MsgID, kw.MsgID2} {
+				if pos <= 0 { // 未使用
+					continue
+				}
+				if pos >= argLength-nameIndex {
+					ctx.debugPrint("  >  >  >  ID=%v too few args", name)
+					argOK = false
+					break
+				}
+				text, ok := stringLiteral(args[nameIndex+pos])
 				if !ok {
-					ctx.debugPrint("  >  >  >  ID=%v args[%d] is not string node", name, i)
+					ctx.debugPrint("  >  >  >  ID=%v args[%d] is not string node", name, nameIndex+pos)
 					argOK = false
 					break
 				}
-				m[i-nameIndex] = text
+				m[pos] = text
 			}
 			if !argOK {
 				continue
-- 
2.43.0


From fa7c6288bbb1475194f0c95265f4752f587fa56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 12/23] fix: xtemplate skipped calls inside a parenthesised
 pipeline followed by a field

---
 cmd/xtemplate/internal/run.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 2400abc..f19b51f 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -221,6 +221,9 @@ func resolveCmds(filename string, line int, ctx *Context, cmds []*parse.CommandN
 				lastID := arg.Ident[len(arg.Ident)-1]
 				filter(ctx, fmt.Sprintf("%v:%d", filename, line), lastID, i, args)
 			case *parse.ChainNode:
+				if pipe, ok := arg.Node.(*parse.PipeNode); ok {
+					resolvePipe(filename, line, ctx, pipe) // (T "x").Foo
+				}
 				if len(arg.Field) == 0 {
 					continue
 				}
-- 
2.43.0


From e3bce04b1a904054cecfb8a029190756a9433421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 13/23] fix: an empty message in a template replaced the header
 of the extracted catalogue

---
 cmd/xtemplate/internal/run.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index f19b51f..f25af74 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -335,6 +335,10 @@ func extract(ctx *Context, line, name string, kw Keyword, m map[int]string) (*tr
 
 	}
 	entry.MsgID = txt
+	if entry.Key() == key("", "") {
+		ctx.debugPrint("  >  >  >  ID=%v empty msg id is reserved for the header", name)
+		return nil, false
+	}
 
 	if kw.MsgID2 > 0 {
 		txt, ok := m[kw.MsgID2]
-- 
2.43.0


From 6c6590af643bc68cc9ee43d430ac0f3a4f4f6862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 14/23] fix: keyword and file name text was used as a format
 string in error messages

---
 cmd/xtemplate/internal/keyword.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/cmd/xtemplate/internal/keyword.go b/cmd/xtemplate/internal/keyword.go
index b68aff2..519e7a8 100644
--- a/cmd/xtemplate/internal/keyword.go
+++ b/cmd/xtemplate/internal/keyword.go
@@ -33,19 +33,19 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 		if len(nameIndex) == 1 {
 			name := strings.TrimSpace(nameIndex[0])
 			if name == "" {
-				return nil, errors.Errorf(msg)
+				return nil, errors.New(msg)
 			}
 			result = append(result, Keyword{Name: name, MsgID: 1})
 			continue
 		}
 		if len(nameIndex) != 2 {
-			return nil, errors.Errorf(msg)
+			return nil, errors.New(msg)
 		}
 		k := Keyword{
 			Name: strings.TrimSpace(nameIndex[0]),
 		}
 		if k.Name == "" {
-			return nil, errors.Errorf(msg)
+			return nil, errors.New(msg)
 		}
 		index := strings.Split(nameIndex[1], ",")
 		for i := range index {
@@ -55,7 +55,7 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 		case 1:
 			i, err := strconv.ParseInt(index[0], 10, 64)
 			if err != nil {
-				return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number"))
+				return nil, errors.Wrap(err, msg+t.T("msg id index is not a number"))
 			}
 			k.MsgID = int(i)
 		case 2:
@@ -66,25 +66,25 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 				c := i1[:len(i1)-1]
 				cIndex, err := strconv.ParseInt(c, 10, 64)
 				if err != nil {
-					return nil, errors.Wrapf(err, msg+t.T("context index is not a number: %v", c))
+					return nil, errors.Wrap(err, msg+t.T("context index is not a number: %v", c))
 				}
 				k.MsgCtxt = int(cIndex)
 
 				index, err := strconv.ParseInt(i2, 10, 64)
 				if err != nil {
-					return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i2))
+					return nil, errors.Wrap(err, msg+t.T("msg id index is not a number: %v", i2))
 				}
 				k.MsgID = int(index)
 			} else {
 				index, err := strconv.ParseInt(i1, 10, 64)
 				if err != nil {
-					return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i1))
+					return nil, errors.Wrap(err, msg+t.T("msg id index is not a number: %v", i1))
 				}
 				k.MsgID = int(index)
 
 				index, err = strconv.ParseInt(i2, 10, 64)
 				if err != nil {
-					return nil, errors.Wrapf(err, msg+t.T("msg plural index is not a number: %v", i2))
+					return nil, errors.Wrap(err, msg+t.T("msg plural index is not a number: %v", i2))
 				}
 				k.MsgID2 = int(index)
 			}
@@ -93,28 +93,28 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 			i2 := index[1]
 			i3 := index[2]
 			if !strings.HasSuffix(i1, "c") {
-				return nil, errors.Errorf(msg + t.T("context index must end with 'c': %v", i1))
+				return nil, errors.New(msg + t.T("context index must end with 'c': %v", i1))
 			}
 			c := i1[:len(i1)-1]
 			index, err := strconv.ParseInt(c, 10, 64)
 			if err != nil {
-				return nil, errors.Wrapf(err, msg+t.T("msg context index is not a number: %v", c))
+				return nil, errors.Wrap(err, msg+t.T("msg context index is not a number: %v", c))
 			}
 			k.MsgCtxt = int(index)
 
 			index, err = strconv.ParseInt(i2, 10, 64)
 			if err != nil {
-				return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i2))
+				return nil, errors.Wrap(err, msg+t.T("msg id index is not a number: %v", i2))
 			}
 			k.MsgID = int(index)
 
 			index, err = strconv.ParseInt(i3, 10, 64)
 			if err != nil {
-				return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i3))
+				return nil, errors.Wrap(err, msg+t.T("msg id index is not a number: %v", i3))
 			}
 			k.MsgID2 = int(index)
 		default:
-			return nil, errors.Errorf(msg + t.T("too much keyword index"))
+			return nil, errors.New(msg + t.T("too much keyword index"))
 		}
 		result = append(result, k)
 	}
@@ -128,7 +128,7 @@ func Writer(fileName string) (wr *os.File, err error) {
 	if fileName != "" && fileName != "-" {
 		wr, err = os.OpenFile(fileName, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 		if err != nil {
-			err = errors.Wrapf(err, t.T("can not open output file: %s", fileName))
+			err = errors.Wrap(err, t.T("can not open output file: %s", fileName))
 		}
 	}
 	return
-- 
2.43.0


From 0adac6ad56eddda82709e71a28379de6b859d502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 15/23] fix: a failed xtemplate run emptied the existing output
 file

---
 cmd/xtemplate/internal/param.go |  7 +------
 cmd/xtemplate/internal/run.go   | 17 +++++++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/cmd/xtemplate/internal/param.go b/cmd/xtemplate/internal/param.go
index 1a2a7f3..0781063 100644
--- a/cmd/xtemplate/internal/param.go
+++ b/cmd/xtemplate/internal/param.go
@@ -41,7 +41,7 @@ type Context struct {
 	entries   map[string]*translator.Entry
 }
 
-// newCtx 根据命令行参数构造运行上下文，并完成 keyword/function/output 的初始化。
+// newCtx 根据命令行参数构造运行上下文，并完成 keyword/function 的初始化。
 func newCtx(param *Param) (*Context, error) {
 	ctx := &Context{
 		Param:     param,
@@ -56,11 +56,6 @@ func newCtx(param *Param) (*Context, error) {
 	for _, k := range kw {
 		ctx.Functions[k.Name] = noopFun
 	}
-	wr, err := Writer(param.OutputFile)
-	if err != nil {
-		return nil, err
-	}
-	ctx.Output = wr
 
 	if ctx.Function != "" {
 		fun := strings.Split(ctx.Function, ",")
diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index f25af74..792b3d6 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -44,12 +44,6 @@ func Run(param *Param) (err error) {
 	if err != nil {
 		return err
 	}
-	defer func() {
-		closeErr := ctx.Close()
-		if err == nil {
-			err = closeErr
-		}
-	}()
 	filenames, err := filepath.Glob(param.Input)
 	param.debugPrint("Glob files=%v err=%+v", filenames, err)
 	if err != nil {
@@ -75,6 +69,17 @@ func Run(param *Param) (err error) {
 
 	ctx.debugPrint("extract done, %d entries", len(ctx.entries))
 
+	// 全部成功后才打开(清空)输出文件，失败时保留原有内容
+	ctx.Output, err = Writer(param.OutputFile)
+	if err != nil {
+		return err
+	}
+	defer func() {
+		closeErr := ctx.Close()
+		if err == nil {
+			err = closeErr
+		}
+	}()
 	return ctx.Write()
 }
 
-- 
2.43.0


From 09be76c76cbaa7042020880ba78a789327484ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 16/23] fix: one unreadable directory stopped every later
 catalogue from loading

---
 translaton.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translaton.go b/translaton.go
index 4186d16..f65e84e 100644
--- a/translaton.go
+++ b/translaton.go
@@ -66,7 +66,7 @@ func (tr *Translation) LoadFS(f fs.FS) bool {
 	fn := func(ext string) func(path string, d fs.DirEntry, err error) error {
 		return func(path string, d fs.DirEntry, err error) error {
 			if err != nil {
-				return err
+				return nil // 跳过读取不了的文件或目录, 继续加载其余的
 			}
 			if d != nil && !d.IsDir() {
 				if strings.HasSuffix(d.Name(), ext) { // 这里应该使用 d.Name;
-- 
2.43.0


From 8094f23efcdeb3fa66bfa3167e80d65a4f1ecd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 17/23] fix: a catalogue without a language counted as loaded
 and wiped the bound domain

---
 translaton.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/translaton.go b/translaton.go
index f65e84e..34d8d78 100644
--- a/translaton.go
+++ b/translaton.go
@@ -5,6 +5,7 @@ import (
 	"io/fs"
 	"strings"
 
+	"github.com/youthlin/t/errors"
 	"github.com/youthlin/t/locale"
 	"github.com/youthlin/t/translator"
 )
@@ -14,6 +15,8 @@ const (
 	extMo = ".mo"
 )
 
+var errNoLanguage = errors.Errorf("no %s header", translator.HeaderLanguage)
+
 // Translation can provide different language translation of a domain
 // tr. [翻译域]包含各个语言的翻译
 type Translation struct {
@@ -112,8 +115,7 @@ func (tr *Translation) LoadPo(content []byte) error {
 	if err != nil {
 		return err
 	}
-	tr.AddOrReplace(poFile)
-	return nil
+	return tr.addFile(poFile)
 }
 
 // LoadMo load mo file
@@ -122,6 +124,14 @@ func (tr *Translation) LoadMo(content []byte) error {
 	if err != nil {
 		return err
 	}
-	tr.AddOrReplace(moFile)
+	return tr.addFile(moFile)
+}
+
+// addFile adds a loaded file, a file without language can not be used
+func (tr *Translation) addFile(file *translator.File) error {
+	if file.Lang() == "" {
+		return errNoLanguage
+	}
+	tr.AddOrReplace(file)
 	return nil
 }
-- 
2.43.0


From 23e751e5db802a947675ecc1154885bf5f944610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 18/23] fix: LoadFile reported success for a file it did not
 load

---
 translaton.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/translaton.go b/translaton.go
index 34d8d78..7702c78 100644
--- a/translaton.go
+++ b/translaton.go
@@ -105,6 +105,8 @@ func (tr *Translation) LoadFile(file fs.File) error {
 		err = tr.LoadPo(content)
 	} else if strings.HasSuffix(fileName, extMo) {
 		err = tr.LoadMo(content)
+	} else {
+		err = errors.Errorf("not a %s or %s file: %s", extPo, extMo, fileName)
 	}
 	return err
 }
-- 
2.43.0


From bd39ac05618bdeb7fbe9757e1be7887023646875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:08 +0000
Subject: [PATCH 19/23] fix: untranslated entries were written to a PO file
 without any msgstr line

---
 translator/po.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/translator/po.go b/translator/po.go
index ff5b837..90e727b 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -61,8 +61,12 @@ func (f *File) SaveAsPo(w io.Writer) error {
 		if entry.IsPlural {
 			writeString(buf, msgidPlural, entry.MsgID2)
 		}
-		if entry.MsgStr != "" {
+		switch {
+		case entry.MsgStr != "" || !entry.IsPlural && len(entry.MsgStrN) == 0:
 			writeString(buf, msgstr, entry.MsgStr)
+		case len(entry.MsgStrN) == 0: // an untranslated plural
+			writeString(buf, fmt.Sprintf(msgstrN, 0), "")
+			writeString(buf, fmt.Sprintf(msgstrN, 1), "")
 		}
 		for i, str := range entry.MsgStrN {
 			writeString(buf, fmt.Sprintf(msgstrN, i), str)
-- 
2.43.0


From 6fcd1972409ce64399ff65fcca2bb1702a444fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:09 +0000
Subject: [PATCH 20/23] fix: the strings of a saved MO file were not sorted, so
 other readers could not find them

---
 translator/mo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/translator/mo.go b/translator/mo.go
index ea40856..2c5e374 100644
--- a/translator/mo.go
+++ b/translator/mo.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 
 	"github.com/youthlin/t/errors"
@@ -226,6 +227,8 @@ func (f *File) SaveAsMo(w io.Writer) error {
 
 	// map 多次迭代顺序不定，先转为数组
 	var entries = f.SortedEntry()
+	// the format wants the original strings in lexicographical order: it is searched by bisection
+	sort.SliceStable(entries, func(i, j int) bool { return moMsgID(entries[i]) < moMsgID(entries[j]) })
 
 	// pos=O. from here is O.
 	offsetID := offsetO + count*8*2 // 8=length(uint32)+offset(uint32) 2=id table + str table
-- 
2.43.0


From 8bf68a327ad929dccec91810d4ac11243ed68c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:09 +0000
Subject: [PATCH 21/23] fix: only the header keeps its translation in a
 template

---
 translator/pot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/pot.go b/translator/pot.go
index 3490dea..5066752 100644
--- a/translator/pot.go
+++ b/translator/pot.go
@@ -35,7 +35,7 @@ func (f *File) SaveAsPot(w io.Writer) error {
 		writeString(buf, msgid, entry.MsgID)
 
 		if !entry.IsPlural {
-			if entry.MsgID == "" { // header
+			if entry.isHeader() {
 				writeString(buf, msgstr, entry.MsgStr)
 			} else {
 				writeString(buf, msgstr, "")
-- 
2.43.0


From 39bd3aa531a00bc921982b9e497a0ec2ef413de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 22/23] fix: a continuation line that continues nothing was
 dropped silently

---
 translator/po.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/translator/po.go b/translator/po.go
index 90e727b..f246d4e 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -222,6 +222,9 @@ func readEntry(r *reader) (*Entry, error) {
 				entry.MsgStrN[len(entry.MsgStrN)-1] += data
 			case stateStr:
 				entry.MsgStr += data
+			default: // it continues nothing
+				return nil, errors.WithSecondaryError(errInvalidEntry,
+					errors.Errorf("unexpected line %d: %s", r.lineNo, line))
 			}
 		} else {
 			return nil, errors.WithSecondaryError(errInvalidEntry,
-- 
2.43.0


From 46f66d7ef72aa398cef0751c5366c33101cdcd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:25 +0000
Subject: [PATCH 23/23] fix: report a function name that is not an identifier
 instead of panicking

---
 cmd/xtemplate/internal/param.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/cmd/xtemplate/internal/param.go b/cmd/xtemplate/internal/param.go
index 0781063..fde3b14 100644
--- a/cmd/xtemplate/internal/param.go
+++ b/cmd/xtemplate/internal/param.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"html/template"
 	"os"
+	"regexp"
 	"strings"
 	"time"
 
@@ -30,6 +31,9 @@ func (p *Param) debugPrint(format string, args ...any) {
 	}
 }
 
+// funcName 匹配 template.Funcs 接受的函数名。
+var funcName = regexp.MustCompile(`^[\pL_][\pL\p{Nd}_]*$`)
+
 // Context 保存一次提取任务运行期间的上下文。
 // 除了解析参数外，也负责缓存 keyword/function 映射、收集 entry 以及输出目标。
 type Context struct {
@@ -54,7 +58,9 @@ func newCtx(param *Param) (*Context, error) {
 	}
 	ctx.Keywords = kw
 	for _, k := range kw {
-		ctx.Functions[k.Name] = noopFun
+		if err := ctx.addFunction(k.Name); err != nil {
+			return nil, err
+		}
 	}
 
 	if ctx.Function != "" {
@@ -64,12 +70,23 @@ func newCtx(param *Param) (*Context, error) {
 			if name == "" {
 				continue
 			}
-			ctx.Functions[name] = noopFun
+			if err := ctx.addFunction(name); err != nil {
+				return nil, err
+			}
 		}
 	}
 	return ctx, nil
 }
 
+// addFunction 注册一个模板函数名；名称不是合法标识符时 template.Funcs 会 panic，因此在这里返回错误。
+func (ctx *Context) addFunction(name string) error {
+	if !funcName.MatchString(name) {
+		return errors.Newf(t.T("invalid function name: %v"), name)
+	}
+	ctx.Functions[name] = noopFun
+	return nil
+}
+
 // Add 合并一条抽取结果；相同 msgid 会合并来源注释。
 func (ctx *Context) Add(entry *translator.Entry) error {
 	plural := entry.IsPlural
-- 
2.43.0


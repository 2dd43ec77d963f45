From 43197414d3125d0861c4b4d4a4914e180202df51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:36 +0000
Subject: [PATCH 01/40] fix: plural lookup panicked when an entry has fewer
 msgstr forms than nplurals

---
 translator/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/file.go b/translator/file.go
index 81617c4..0c21a7b 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -58,7 +58,7 @@ func (file *File) XN64(msgCtxt, msgID, msgIDPlural string, n int64, args ...any)
 		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
 	}
 	index := plural.fn(n)
-	if index < 0 || index >= int(plural.totalForms) || index > len(entry.MsgStrN) || entry.MsgStrN[index] == "" {
+	if index < 0 || index >= int(plural.totalForms) || index >= len(entry.MsgStrN) || entry.MsgStrN[index] == "" {
 		// 超出范围
 		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
 	}
-- 
2.43.0


From f28b93c4a587e5e2c336c874a0e5a549c0b4b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:36 +0000
Subject: [PATCH 02/40] fix: plural expressions treat every nonzero value as
 true, as C does

---
 plurals/exp.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/plurals/exp.go b/plurals/exp.go
index 80a1bd7..7fceddf 100644
--- a/plurals/exp.go
+++ b/plurals/exp.go
@@ -112,10 +112,10 @@ func (s *myListener) handleExpPrefix(prefix antlr.Token) {
 		s.stack.Push(^num) // go 使用 ^ 表示按位取反
 	case "!":
 		num, _ := s.stack.Pop()
-		if num == _TRUE {
-			s.stack.Push(_FALSE)
-		} else {
+		if num == _FALSE {
 			s.stack.Push(_TRUE)
+		} else {
+			s.stack.Push(_FALSE)
 		}
 	default:
 		panic("assert error: unexpected text(prefix): " + prefixText)
@@ -254,7 +254,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
-		if left == _TRUE && right == _TRUE {
+		if left != _FALSE && right != _FALSE {
 			s.stack.Push(_TRUE)
 		} else {
 			s.stack.Push(_FALSE)
@@ -264,7 +264,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
-		if left == _TRUE || right == _TRUE {
+		if left != _FALSE || right != _FALSE {
 			s.stack.Push(_TRUE)
 		} else {
 			s.stack.Push(_FALSE)
@@ -276,7 +276,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			left, _  = s.stack.Pop()
 			cond, _  = s.stack.Pop()
 		)
-		if cond == _TRUE {
+		if cond != _FALSE {
 			s.stack.Push(left)
 		} else {
 			s.stack.Push(right)
-- 
2.43.0


From 5149c9d87d8dc40774926bebad2a26637901dc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:36 +0000
Subject: [PATCH 03/40] fix: ReadPot panicked on a malformed entry instead of
 returning the error

---
 translator/po.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/translator/po.go b/translator/po.go
index d4d1368..97e44eb 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -33,15 +33,16 @@ func readPo(content []byte, pot bool) (*File, error) {
 	file := new(File)
 	for {
 		entry, err := readEntry(r)
+		eof := errors.Is(err, io.EOF)
+		if err != nil && !eof {
+			return nil, err
+		}
 		if pot || entry.isValid() {
 			file.AddEntry(entry)
 		}
-		if errors.Is(err, io.EOF) {
+		if eof {
 			return file, nil
 		}
-		if err != nil {
-			return nil, err
-		}
 	}
 }
 
-- 
2.43.0


From 53eefe0a811adab585a4c1c8b2550d7c51ee05de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 04/40] fix: ReadPot let comments at the end of a file replace
 the header entry

---
 translator/po.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/translator/po.go b/translator/po.go
index 97e44eb..62201b3 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -37,7 +37,8 @@ func readPo(content []byte, pot bool) (*File, error) {
 		if err != nil && !eof {
 			return nil, err
 		}
-		if pot || entry.isValid() {
+		// pot 中的条目可以没有译文; 但没有 msgid 又没有译文的(如文件末尾只有注释)不是条目, 不能覆盖 header
+		if entry.isValid() || pot && entry.Key() != key("", "") {
 			file.AddEntry(entry)
 		}
 		if eof {
-- 
2.43.0


From f526c6079d50e9192dbfe59d7f9dcd604ac4c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 05/40] fix: adding a header entry did not refresh headers and
 plural forms already cached

---
 translator/file.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/translator/file.go b/translator/file.go
index 0c21a7b..a75f9bc 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -85,6 +85,9 @@ func (file *File) AddEntry(e *Entry) {
 	}
 	file.entries[e.Key()] = e
 	if e.isHeader() {
+		// header 变了，丢弃之前的缓存重新解析
+		file.headers = nil
+		file.plural = nil
 		file.initHeader()
 		file.initPlural()
 	}
-- 
2.43.0


From 42f801f27342aaadb933ea460447b54c28589ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 06/40] fix: an entry with a context and an empty msgid is not
 the header

---
 translator/entry.go | 2 +-
 translator/pot.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/translator/entry.go b/translator/entry.go
index 733b0c7..bc9106a 100644
--- a/translator/entry.go
+++ b/translator/entry.go
@@ -24,7 +24,7 @@ func (e *Entry) Key() string {
 
 // isHeader 返回该条目是否是一个 header 条目
 func (e *Entry) isHeader() bool {
-	return e.MsgID == ""
+	return e.MsgCtxt == "" && e.MsgID == ""
 }
 
 // isValid 是否合法的条目
diff --git a/translator/pot.go b/translator/pot.go
index 3490dea..5066752 100644
--- a/translator/pot.go
+++ b/translator/pot.go
@@ -35,7 +35,7 @@ func (f *File) SaveAsPot(w io.Writer) error {
 		writeString(buf, msgid, entry.MsgID)
 
 		if !entry.IsPlural {
-			if entry.MsgID == "" { // header
+			if entry.isHeader() {
 				writeString(buf, msgstr, entry.MsgStr)
 			} else {
 				writeString(buf, msgstr, "")
-- 
2.43.0


From af0cee8d3a49232b3be231750eca1aff5b95cde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 07/40] fix: formatting a text ending in an incomplete verb
 leaked an internal verb and EXTRA arguments

---
 f/format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/f/format.go b/f/format.go
index 6394180..68bb709 100644
--- a/f/format.go
+++ b/f/format.go
@@ -14,12 +14,12 @@ func Format(format string, args ...any) string {
 	if length == 0 {
 		return format
 	}
-	// 原理：使用索引指定参数位置，在 args 后拼接一个空白字符串，
-	// 然后在格式化字符串上使用 %[n]s 输出拼接的空白字符串，这样就没有多余的参数了
+	// 原理：只要使用过索引指定参数位置，fmt 就不会检查多余的参数。
+	// 所以在格式化字符串前使用 %[1]%（只输出一个百分号，不消耗参数），最后再去掉这个百分号。
+	// 放在前面而不是后面，避免和格式化字符串末尾不完整的动词（如 100%）连在一起。
 	// see fmt 包注释，或中文文档 https://studygolang.com/static/pkgdoc/pkg/fmt.htm
 	args = append(args, "")
-	format = fmt.Sprintf("%s%%[%d]s", format, length+1)
-	return fmt.Sprintf(format, args...)
+	return fmt.Sprintf("%[1]%"+format, args...)[1:]
 }
 
 // DefaultPlural 根据 n 选择单数或复数形式。
-- 
2.43.0


From 04c46d3b0560f56ce6011f51011214959c97c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 08/40] fix: formatting overwrote the caller's argument slice
 beyond its length

---
 errors/errors.go | 2 +-
 f/format.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index 241e9d8..98c2e26 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -10,7 +10,7 @@ func Errorf(format string, args ...any) error {
 }
 
 func Wrapf(err error, format string, args ...any) error {
-	args = append(args, err)
+	args = append(args[:len(args):len(args)], err) // 限制容量，不能写到调用方的底层数组上
 	return fmt.Errorf(format+": %w", args...)
 }
 
diff --git a/f/format.go b/f/format.go
index 68bb709..1162bfc 100644
--- a/f/format.go
+++ b/f/format.go
@@ -18,7 +18,7 @@ func Format(format string, args ...any) string {
 	// 所以在格式化字符串前使用 %[1]%（只输出一个百分号，不消耗参数），最后再去掉这个百分号。
 	// 放在前面而不是后面，避免和格式化字符串末尾不完整的动词（如 100%）连在一起。
 	// see fmt 包注释，或中文文档 https://studygolang.com/static/pkgdoc/pkg/fmt.htm
-	args = append(args, "")
+	args = append(args[:length:length], "") // 限制容量，不能写到调用方的底层数组上
 	return fmt.Sprintf("%[1]%"+format, args...)[1:]
 }
 
-- 
2.43.0


From 19e14a8adc94afc1d407c56be357598a4007c523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 09/40] fix: MostMatchLocale of a Translations used the global
 instance's locales

---
 translations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/translations.go b/translations.go
index 3ab42b2..967a3b1 100644
--- a/translations.go
+++ b/translations.go
@@ -134,8 +134,8 @@ func (ts *Translations) Locales() (locales []string) {
 
 // MostMatchLocale return the most match language 返回最匹配的语言
 func (ts *Translations) MostMatchLocale() string {
-	var supported = Locales()
-	_, index, _ := Match(supported, []string{Locale()})
+	var supported = ts.Locales()
+	_, index, _ := Match(supported, []string{ts.Locale()})
 	return supported[index]
 }
 
-- 
2.43.0


From e31c5232552d930d2ba76b9b31bdb3ab34c24e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 10/40] fix: reading a MO file allocated whatever length the
 file declared

---
 translator/mo.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/translator/mo.go b/translator/mo.go
index 77cba35..8ba7832 100644
--- a/translator/mo.go
+++ b/translator/mo.go
@@ -157,6 +157,10 @@ func ReadMo(content []byte) (*File, error) {
 			return nil, errors.WithSecondaryError(errReadMo,
 				errors.Wrapf(err, "failed to seek to msg_id[%d]: %d", i, msgIDMeta[i].OffSet))
 		}
+		if int64(msgIDMeta[i].Length) > r.Size() { // 声明的长度不可信，分配内存前先检查
+			return nil, errors.WithSecondaryError(errReadMo,
+				errors.Errorf("invalid length of msg_id[%d]: %d", i, msgIDMeta[i].Length))
+		}
 		id := make([]byte, msgIDMeta[i].Length) // msg_id 的长度
 		if err := binary.Read(r, bo, &id); err != nil {
 			return nil, errors.WithSecondaryError(errReadMo,
@@ -168,6 +172,10 @@ func ReadMo(content []byte) (*File, error) {
 			return nil, errors.WithSecondaryError(errReadMo,
 				errors.Wrapf(err, "failed to seek to msg_str[%d]: %d", i, msgStrMeta[i].OffSet))
 		}
+		if int64(msgStrMeta[i].Length) > r.Size() {
+			return nil, errors.WithSecondaryError(errReadMo,
+				errors.Errorf("invalid length of msg_str[%d]: %d", i, msgStrMeta[i].Length))
+		}
 		str := make([]byte, msgStrMeta[i].Length) // msg_str 的长度
 		if err := binary.Read(r, bo, &str); err != nil {
 			return nil, errors.WithSecondaryError(errReadMo,
-- 
2.43.0


From 4d9f44b680841a1a7594b665f49a4aad7124ef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 11/40] fix: saved PO and POT files used Go-only escapes that
 gettext tools reject

---
 translator/pot.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/translator/pot.go b/translator/pot.go
index 5066752..98c780a 100644
--- a/translator/pot.go
+++ b/translator/pot.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"strings"
+	"unicode/utf8"
 )
 
 const (
@@ -17,8 +19,29 @@ const (
 func writeString(buf *bytes.Buffer, key, content string) {
 	buf.WriteString(key + " ")
 	for _, line := range split(content, lineThreshold) {
-		fmt.Fprintf(buf, "%q\n", line)
+		writeQuoted(buf, line)
+		buf.WriteString("\n")
+	}
+}
+
+// writeQuoted 写入带引号的字符串. 只使用 PO 文件支持的(C 语言的)转义:
+// 不能使用 %q, 因为 \u3000 等转义只有 Go 语言支持
+func writeQuoted(buf *bytes.Buffer, s string) {
+	const from, to = "\"\\\a\b\f\n\r\t\v", `"\abfnrtv`
+	buf.WriteByte('"')
+	for len(s) > 0 {
+		r, size := utf8.DecodeRuneInString(s)
+		if i := strings.IndexRune(from, r); i >= 0 {
+			buf.WriteByte('\\')
+			buf.WriteByte(to[i])
+		} else if r < ' ' || r == 0x7f || (r == utf8.RuneError && size == 1) {
+			fmt.Fprintf(buf, `\%03o`, s[0]) // 其他控制字符, 或不合法的 UTF-8
+		} else {
+			buf.WriteString(s[:size])
+		}
+		s = s[size:]
 	}
+	buf.WriteByte('"')
 }
 
 // SaveAsPot save this File as pot format
-- 
2.43.0


From c3b003e857df63419d5f76ee6f98276a04d113c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:30 +0000
Subject: [PATCH 12/40] fix: saved PO files omitted msgstr of untranslated
 entries, which gettext tools reject

---
 translator/po.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/translator/po.go b/translator/po.go
index 62201b3..9686f2f 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -62,12 +62,16 @@ func (f *File) SaveAsPo(w io.Writer) error {
 		if entry.IsPlural {
 			writeString(buf, msgidPlural, entry.MsgID2)
 		}
-		if entry.MsgStr != "" {
+		if entry.MsgStr != "" || (!entry.IsPlural && len(entry.MsgStrN) == 0) {
 			writeString(buf, msgstr, entry.MsgStr)
 		}
 		for i, str := range entry.MsgStrN {
 			writeString(buf, fmt.Sprintf(msgstrN, i), str)
 		}
+		if entry.IsPlural && entry.MsgStr == "" && len(entry.MsgStrN) == 0 {
+			// 还没有翻译, msgstr 也不能省略
+			writeString(buf, fmt.Sprintf(msgstrN, 0), "")
+		}
 		buf.WriteString("\n")
 	}
 	_, err := buf.WriteTo(w)
-- 
2.43.0


From 34f4e7535e5f52b36902ec994bfdae3586f91f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:32 +0000
Subject: [PATCH 13/40] fix: one unreadable subdirectory stopped loading the
 languages after it

---
 translaton.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translaton.go b/translaton.go
index c0a3b3e..a78a2c0 100644
--- a/translaton.go
+++ b/translaton.go
@@ -69,7 +69,7 @@ func (tr *Translation) LoadFS(f fs.FS) bool {
 	fn := func(ext string) func(path string, d fs.DirEntry, err error) error {
 		return func(path string, d fs.DirEntry, err error) error {
 			if err != nil {
-				return err
+				return nil // 跳过不能读取的目录，继续加载其他的
 			}
 			if d != nil && !d.IsDir() {
 				if strings.HasSuffix(d.Name(), ext) { // 这里应该使用 d.Name;
-- 
2.43.0


From 196fbdec797f6079545906e0f56021e10952c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 14/40] fix: locale names with a codeset or modifier but no
 region normalized to en_US

---
 locale/detect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/locale/detect.go b/locale/detect.go
index 014a218..c9b895b 100644
--- a/locale/detect.go
+++ b/locale/detect.go
@@ -2,6 +2,7 @@ package locale
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/Xuanwo/go-locale"
 	"golang.org/x/text/language"
@@ -19,6 +20,10 @@ func GetDefault() string {
 
 // Normalize return ll_CC code
 func Normalize(lang string) string {
+	// ll_CC.codeset@modifier: language.Make 不支持后面的编码和修饰
+	if i := strings.IndexAny(lang, ".@"); i >= 0 {
+		lang = lang[:i]
+	}
 	return NormalizeTag(language.Make(lang))
 }
 
-- 
2.43.0


From 435c9395fca9e97d7fca808e313285661eefe1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 15/40] fix: xtemplate ignored keywords whose argument
 positions do not start at 1 or are not contiguous

---
 cmd/xtemplate/internal/run.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 6bc846b..c65d77d 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -250,29 +250,24 @@ func filter(ctx *Context, line, name string, nameIndex int, args []parse.Node) {
 	argLength := len(args)
 	for _, kw := range ctx.Keywords {
 		if kw.Name == name {
-			argCount := 1 // MsgID 始终需要
-			if kw.MsgCtxt > 0 && kw.MsgCtxt != kw.MsgID {
-				argCount++
-			}
-			if kw.MsgID2 > 0 && kw.MsgID2 != kw.MsgID && kw.MsgID2 != kw.MsgCtxt {
-				argCount++
-			}
-			lastIndex := argCount + nameIndex
-			if lastIndex >= argLength {
-				ctx.debugPrint("  >  >  >  ID=%v too few args", name)
-				continue
-			}
 			argOK := true
 			m := make(map[int]string)
-			for i := nameIndex + 1; i <= lastIndex; i++ {
-				arg := args[i]
-				text, ok := stringLiteral(arg)
+			for _, pos := range []int{kw.MsgCtxt, kw.MsgID, kw.MsgID2} { // 只检查需要的参数位置
+				if pos <= 0 { // 未指定
+					continue
+				}
+				if pos >= argLength-nameIndex {
+					ctx.debugPrint("  >  >  >  ID=%v too few args", name)
+					argOK = false
+					break
+				}
+				text, ok := stringLiteral(args[nameIndex+pos])
 				if !ok {
-					ctx.debugPrint("  >  >  >  ID=%v args[%d] is not string node", name, i)
+					ctx.debugPrint("  >  >  >  ID=%v args[%d] is not string node", name, nameIndex+pos)
 					argOK = false
 					break
 				}
-				m[i-nameIndex] = text
+				m[pos] = text
 			}
 			if !argOK {
 				continue
-- 
2.43.0


From 24908ed6a787585f21f36c1ca87e937ae11026bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 16/40] fix: xtemplate let an empty msgid in a template replace
 the POT header

---
 cmd/xtemplate/internal/run.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index c65d77d..e0a343d 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -329,6 +329,11 @@ func extract(ctx *Context, line, name string, kw Keyword, m map[int]string) (*tr
 
 	}
 	entry.MsgID = txt
+	if entry.MsgCtxt == "" && entry.MsgID == "" {
+		// 空 msgid 保留给 header，不能作为普通条目
+		ctx.debugPrint("  >  >  >  ID=%v empty msg id", name)
+		return nil, false
+	}
 
 	if kw.MsgID2 > 0 {
 		txt, ok := m[kw.MsgID2]
-- 
2.43.0


From d6afc3fc16cb8b637454e9305b8ee4c803e97b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 17/40] fix: xtemplate did not look inside parentheses followed
 by a field access

---
 cmd/xtemplate/internal/run.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index e0a343d..e7f217c 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -218,6 +218,10 @@ func resolveCmds(filename string, line int, ctx *Context, cmds []*parse.CommandN
 				lastID := arg.Ident[len(arg.Ident)-1]
 				filter(ctx, fmt.Sprintf("%v:%d", filename, line), lastID, i, args)
 			case *parse.ChainNode:
+				// (pipeline).Field 括号里面也可能有翻译调用
+				if inner, ok := arg.Node.(*parse.PipeNode); ok {
+					resolvePipe(filename, line, ctx, inner)
+				}
 				if len(arg.Field) == 0 {
 					continue
 				}
-- 
2.43.0


From 85f02dc5ffb4db440d90e1476c6d08aa024d9d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 18/40] fix: xtemplate output order changed from run to run for
 files defining several templates

---
 cmd/xtemplate/internal/run.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index e7f217c..478981d 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"text/template/parse"
 
 	"github.com/cockroachdb/errors"
@@ -109,13 +110,29 @@ func resolveOneFile(filename string, ctx *Context) error {
 	if err != nil {
 		return errors.Wrapf(err, t.T("failed to parse file %v"), filename)
 	}
-	// 一个文件可能有多个模板
-	for _, tmpl := range tmpl.Templates() {
+	// 一个文件可能有多个模板. Templates() 的顺序不固定, 按在文件中的位置排序, 使每次的输出一致
+	tmpls := tmpl.Templates()
+	sort.Slice(tmpls, func(i, j int) bool {
+		left, right := tmplPos(tmpls[i]), tmplPos(tmpls[j])
+		if left != right {
+			return left < right
+		}
+		return tmpls[i].Name() < tmpls[j].Name()
+	})
+	for _, tmpl := range tmpls {
 		resolveTmpl(filename, ctx, tmpl)
 	}
 	return nil
 }
 
+// tmplPos 返回模板在文件中的位置
+func tmplPos(tmpl *template.Template) parse.Pos {
+	if tmpl.Tree == nil || tmpl.Tree.Root == nil {
+		return 0
+	}
+	return tmpl.Tree.Root.Pos
+}
+
 // resolveTmpl 处理每个模板
 func resolveTmpl(filename string, ctx *Context, tmpl *template.Template) {
 	ctx.debugPrint("process template: [filename=%v] [template name=%v]", filename, tmpl.Name())
-- 
2.43.0


From a03c28aea3955381d99b5eda60672aa72833be30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 19/40] fix: xtemplate failed to parse templates calling
 functions with non-ASCII names

---
 cmd/xtemplate/internal/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 478981d..9d7aa5f 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -24,7 +24,7 @@ var templateBuiltins = map[string]bool{
 
 // identPattern 匹配模板中所有合法 Go 标识符（字母或下划线开头）。
 // 扫描所有标识符并注册为 noop 函数，比精确匹配函数调用位置更简单可靠。
-var identPattern = regexp.MustCompile(`[a-zA-Z_]\w*`)
+var identPattern = regexp.MustCompile(`[\p{L}_][\p{L}\p{Nd}_]*`)
 
 // scanFuncNames 从模板源码中扫描所有标识符，排除内置关键字，作为候选函数名。
 func scanFuncNames(src string) map[string]bool {
-- 
2.43.0


From c0f613b3ccc2d61d3d82a4a5c3f48b7bb6817988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 20/40] fix: order of entries with equal sort keys changed from
 run to run

---
 translator/file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/translator/file.go b/translator/file.go
index a75f9bc..b9a989c 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -73,7 +73,10 @@ func (file *File) SortedEntry() (entries []*Entry) {
 	sort.Slice(entries, func(i, j int) bool {
 		left := entries[i]
 		right := entries[j]
-		return left.getSortKey() < right.getSortKey()
+		if l, r := left.getSortKey(), right.getSortKey(); l != r {
+			return l < r
+		}
+		return left.Key() < right.Key()
 	})
 	return
 }
-- 
2.43.0


From 4566f571f1d37e405944b83759e05ef07040fcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 21/40] fix: plural lookup of an untranslated entry ignored the
 plural source text

---
 translator/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/file.go b/translator/file.go
index b9a989c..160062c 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -51,7 +51,7 @@ func (file *File) XN64(msgCtxt, msgID, msgIDPlural string, n int64, args ...any)
 		if entry.MsgStr != "" {
 			return f.Format(entry.MsgStr, args...)
 		}
-		return f.Format(msgID, args...)
+		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
 	}
 	plural := file.getPlural()
 	if plural.totalForms <= 0 || plural.fn == nil {
-- 
2.43.0


From 8d1f21b2a9a2478000b0e16abb552742025760c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 22/40] fix: reading rejected PO files with indented or tab
 separated lines

---
 translator/po.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/translator/po.go b/translator/po.go
index 9686f2f..38d3691 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -116,6 +116,7 @@ func readEntry(r *reader) (*Entry, error) {
 		if strings.TrimSpace(line) == "" {
 			continue
 		}
+		line = normalizeBlank(line)
 		// 注释
 		if strings.HasPrefix(line, prefixCmt) {
 			if previousLineState != "" {
@@ -231,6 +232,16 @@ func readEntry(r *reader) (*Entry, error) {
 	}
 }
 
+// normalizeBlank 去掉行首的缩进, 并使关键字和字符串之间只有一个空格.
+// 缩进和制表符都是合法的, 如 msgcat --indent 的输出
+func normalizeBlank(line string) string {
+	line = strings.TrimLeft(line, " \t")
+	if i := strings.IndexAny(line, " \t\""); i > 0 && line[0] != '#' {
+		line = line[:i] + " " + strings.TrimLeft(line[i:], " \t")
+	}
+	return line
+}
+
 func equalsAny(data string, args ...string) bool {
 	for _, arg := range args {
 		if data == arg {
-- 
2.43.0


From a0c35474d02d357503069ad89f99c81f256945dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 23/40] fix: reading rejected PO files with short octal or
 hexadecimal escapes

---
 translator/util.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/translator/util.go b/translator/util.go
index 8800dd2..7065e8d 100644
--- a/translator/util.go
+++ b/translator/util.go
@@ -14,5 +14,39 @@ func key(ctxt, msgid string) string {
 func removePrefixAndUnquote(line, prefix string) (string, error) {
 	line = strings.TrimPrefix(line, prefix)
 	line = strings.TrimSpace(line)
-	return strconv.Unquote(line)
+	return strconv.Unquote(padEscapes(line))
+}
+
+// padEscapes 补全位数不足的八进制、十六进制转义: C 语言允许 \7 \x7, 而 strconv.Unquote 要求写成 \007 \x07
+func padEscapes(line string) string {
+	if !strings.Contains(line, "\\") {
+		return line
+	}
+	var sb strings.Builder
+	for i := 0; i < len(line); i++ {
+		sb.WriteByte(line[i])
+		if line[i] != '\\' || i+1 == len(line) {
+			continue
+		}
+		i++ // 反斜杠后面的字符
+		start, width, digits := i, 3, "01234567"
+		if line[i] == 'x' {
+			sb.WriteByte('x')
+			start, width, digits = i+1, 2, "0123456789abcdefABCDEF"
+		}
+		end := start
+		for end < len(line) && end-start < width && strings.IndexByte(digits, line[end]) >= 0 {
+			end++
+		}
+		if end == start { // 不是数字
+			if line[i] != 'x' {
+				sb.WriteByte(line[i])
+			}
+			continue
+		}
+		sb.WriteString(strings.Repeat("0", width-(end-start)))
+		sb.WriteString(line[start:end])
+		i = end - 1
+	}
+	return sb.String()
 }
-- 
2.43.0


From f045366774bb375a2c66cd645638bf65d4b303f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 24/40] fix: an empty string placed outside the MO file was
 accepted

---
 translator/mo.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/translator/mo.go b/translator/mo.go
index 8ba7832..7aa51dd 100644
--- a/translator/mo.go
+++ b/translator/mo.go
@@ -157,9 +157,9 @@ func ReadMo(content []byte) (*File, error) {
 			return nil, errors.WithSecondaryError(errReadMo,
 				errors.Wrapf(err, "failed to seek to msg_id[%d]: %d", i, msgIDMeta[i].OffSet))
 		}
-		if int64(msgIDMeta[i].Length) > r.Size() { // 声明的长度不可信，分配内存前先检查
+		if int64(msgIDMeta[i].OffSet)+int64(msgIDMeta[i].Length) > r.Size() { // 声明的长度和位置不可信，分配内存前先检查
 			return nil, errors.WithSecondaryError(errReadMo,
-				errors.Errorf("invalid length of msg_id[%d]: %d", i, msgIDMeta[i].Length))
+				errors.Errorf("msg_id[%d] is outside the file: %+v", i, msgIDMeta[i]))
 		}
 		id := make([]byte, msgIDMeta[i].Length) // msg_id 的长度
 		if err := binary.Read(r, bo, &id); err != nil {
@@ -172,9 +172,9 @@ func ReadMo(content []byte) (*File, error) {
 			return nil, errors.WithSecondaryError(errReadMo,
 				errors.Wrapf(err, "failed to seek to msg_str[%d]: %d", i, msgStrMeta[i].OffSet))
 		}
-		if int64(msgStrMeta[i].Length) > r.Size() {
+		if int64(msgStrMeta[i].OffSet)+int64(msgStrMeta[i].Length) > r.Size() {
 			return nil, errors.WithSecondaryError(errReadMo,
-				errors.Errorf("invalid length of msg_str[%d]: %d", i, msgStrMeta[i].Length))
+				errors.Errorf("msg_str[%d] is outside the file: %+v", i, msgStrMeta[i]))
 		}
 		str := make([]byte, msgStrMeta[i].Length) // msg_str 的长度
 		if err := binary.Read(r, bo, &str); err != nil {
-- 
2.43.0


From 73c87fcb415b8141053c4037929ae7176672ffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 25/40] fix: private-use language tags normalized to und_ZZ,
 which is no stable locale name

---
 locale/detect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/locale/detect.go b/locale/detect.go
index c9b895b..9479f30 100644
--- a/locale/detect.go
+++ b/locale/detect.go
@@ -30,6 +30,10 @@ func Normalize(lang string) string {
 // NormalizeTag return ll_CC code
 func NormalizeTag(tag language.Tag) string {
 	base, _ := tag.Base()
+	if base.String() == "und" { // 私有标签(如 x-y)没有语言
+		tag = language.Und
+		base, _ = tag.Base()
+	}
 	region, _ := tag.Region()
 	return fmt.Sprintf("%v_%v", base, region)
 }
-- 
2.43.0


From 064341eb75d08fa27066a315564ef8b409e3f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:26 +0000
Subject: [PATCH 26/40] fix: concurrent lookups raced on catalogs without a
 header entry

---
 translator/file.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/translator/file.go b/translator/file.go
index 160062c..6b5da1b 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -105,6 +105,9 @@ func (file *File) GetHeader(key string) (value string, ok bool) {
 
 func (file *File) initHeader() {
 	if file.headers == nil {
+		if _, ok := file.entries[key("", "")]; !ok {
+			return // 没有 header 时不写缓存，读操作可以并发
+		}
 		headers := make(map[string]string)
 		if headerEntry, ok := file.entries[key("", "")]; ok {
 			kvs := strings.Split(headerEntry.MsgStr, "\n")
@@ -130,12 +133,18 @@ func (file *File) initHeader() {
 
 func (file *File) getPlural() *plural {
 	file.initPlural()
+	if file.plural == nil {
+		return parsePlural("")
+	}
 	return file.plural
 }
 
 func (file *File) initPlural() {
 	if file.plural == nil {
-		forms, _ := file.GetHeader(HeaderPluralForms)
+		forms, ok := file.GetHeader(HeaderPluralForms)
+		if !ok {
+			return
+		}
 		file.plural = parsePlural(forms)
 	}
 }
-- 
2.43.0


From f9b8ef9f3d7a788778aef2069bea4f1719ea67fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 27/40] fix: xtemplate accepted keyword positions below 1 and
 silently dropped the context or message

---
 cmd/xtemplate/internal/keyword.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/xtemplate/internal/keyword.go b/cmd/xtemplate/internal/keyword.go
index b68aff2..625f24d 100644
--- a/cmd/xtemplate/internal/keyword.go
+++ b/cmd/xtemplate/internal/keyword.go
@@ -116,6 +116,11 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 		default:
 			return nil, errors.Errorf(msg + t.T("too much keyword index"))
 		}
+		for _, pos := range index { // 位置从 1 开始
+			if n, _ := strconv.ParseInt(strings.TrimSuffix(pos, "c"), 10, 64); n < 1 {
+				return nil, errors.Errorf(msg)
+			}
+		}
 		result = append(result, k)
 	}
 	return
-- 
2.43.0


From 1be8b5625f1a1d2cfec3eb6727b8703f78f67098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 28/40] fix: operands that && || ?: do not select no longer
 make a plural expression fail

---
 plurals/err.go |  6 +++++
 plurals/exp.go | 63 +++++++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 66 insertions(+), 3 deletions(-)

diff --git a/plurals/err.go b/plurals/err.go
index 57bb7ee..53ea9ca 100644
--- a/plurals/err.go
+++ b/plurals/err.go
@@ -10,6 +10,12 @@ import (
 // ErrAntlr is a error when antlr process fails
 var ErrAntlr = fmt.Errorf("err antlr")
 
+// ErrDivideByZero is the error of an expression that divides by zero
+var ErrDivideByZero = fmt.Errorf("division by zero")
+
+// ErrNegativeShift is the error of an expression that shifts by a negative number
+var ErrNegativeShift = fmt.Errorf("negative shift amount")
+
 // errorListener handler lexer/parser errors
 type errorListener struct {
 	*antlr.DefaultErrorListener
diff --git a/plurals/exp.go b/plurals/exp.go
index 7fceddf..6f8e3e1 100644
--- a/plurals/exp.go
+++ b/plurals/exp.go
@@ -43,7 +43,10 @@ func Eval(ctx context.Context, exp string, n int64) (result int64, err error) {
 	l := newListener(ctx, n)
 	tree := p.Start_()
 	antlr.ParseTreeWalkerDefault.Walk(l, tree)
-	return l.result, errListener.err
+	if errListener.err != nil {
+		return l.result, errListener.err
+	}
+	return l.result, l.err
 }
 
 // c syntax accept int(0) as false, none-zero as true
@@ -62,6 +65,10 @@ type myListener struct {
 	ctx    context.Context // 外部传入的 ctx， 用于 debug
 	n      int64           // 参数 n
 	result int64           // 结果
+	err    error           // 结果无效的原因
+	// invalid 操作数栈中哪些位置的值没有意义(如除以 0). 和 C 语言一样，&& || ?: 没有选中的操作数不影响结果，
+	// 如 n==0||10/n>1 在 n=0 时是 1
+	invalid map[int]error
 }
 
 func newListener(ctx context.Context, n int64) *myListener {
@@ -69,12 +76,15 @@ func newListener(ctx context.Context, n int64) *myListener {
 		ctx:   ctx,
 		n:     n,
 		stack: make(Int64Stack, 0),
+
+		invalid: make(map[int]error),
 	}
 }
 
 // ExitStart override
 func (s *myListener) ExitStart(ctx *parser.StartContext) {
 	s.result, _ = s.stack.Pop()
+	s.err = s.invalid[len(s.stack)]
 }
 
 // ExitExp override
@@ -128,6 +138,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 	}
 	bopText := bop.GetText()
 	s.debug("bop   : %v stack=%v", bopText, s.stack)
+	invalid := s.invalidBop(bopText)
 	switch bopText {
 	case "*":
 		var (
@@ -140,12 +151,20 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
+		if right == 0 {
+			invalid = ErrDivideByZero
+			right = 1
+		}
 		s.stack.Push(left / right)
 	case "%":
 		var (
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
+		if right == 0 {
+			invalid = ErrDivideByZero
+			right = 1
+		}
 		s.stack.Push(left % right)
 	case "+":
 		var (
@@ -164,12 +183,20 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
+		if right < 0 {
+			invalid = ErrNegativeShift
+			right = 0
+		}
 		s.stack.Push(left >> right)
 	case "<<":
 		var (
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
+		if right < 0 {
+			invalid = ErrNegativeShift
+			right = 0
+		}
 		s.stack.Push(left << right)
 	case ">":
 		var (
@@ -284,9 +311,33 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 	default:
 		panic("assert error: unexpected text(bop): " + bopText)
 	}
+	s.invalid[len(s.stack)-1] = invalid
 	s.debug("bop done stack=%v", s.stack)
 }
 
+// invalidBop 栈顶的操作数中有无效的值时，返回 bop 运算结果无效的原因. 没有用到的操作数不影响结果
+func (s *myListener) invalidBop(bop string) error {
+	count := 2
+	if bop == "?" {
+		count = 3
+	}
+	first := len(s.stack) - count
+	if first < 0 {
+		return nil // 语法错误
+	}
+	if err := s.invalid[first]; err != nil {
+		return err
+	}
+	cond := s.stack[first] != _FALSE
+	switch {
+	case bop == "&&" && !cond, bop == "||" && cond:
+		return nil
+	case bop == "?" && !cond:
+		return s.invalid[first+2]
+	}
+	return s.invalid[first+1]
+}
+
 func (s *myListener) handleExpPostfix(postfix antlr.Token) {
 	if postfix == nil {
 		return
@@ -311,7 +362,7 @@ func (s *myListener) ExitPrimary(ctx *parser.PrimaryContext) {
 	start := ctx.GetStart()
 	switch start.GetText() {
 	case "n":
-		s.stack.Push(s.n) // the only variable n
+		s.push(s.n) // the only variable n
 	case "(":
 		// 不用出入栈
 		s.debug("primary: (exp) stack=%v", s.stack)
@@ -321,11 +372,17 @@ func (s *myListener) ExitPrimary(ctx *parser.PrimaryContext) {
 		if err != nil {
 			panic("assert error: not a number: " + num)
 		}
-		s.stack.Push(iNum)
+		s.push(iNum)
 	}
 	s.debug("primary: %v stack=%v", ctx.GetText(), s.stack)
 }
 
+// push 操作数入栈
+func (s *myListener) push(num int64) {
+	s.stack.Push(num)
+	delete(s.invalid, len(s.stack)-1)
+}
+
 // debug if ctx has a debug key, then print msg.
 // see DebugContext
 func (s *myListener) debug(format string, args ...any) {
-- 
2.43.0


From 6787140a36a89b4a23edc9123f8480f44a308183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 29/40] fix: blanks inside an operator or number of a common
 plural expression are rejected

---
 plurals/exp.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plurals/exp.go b/plurals/exp.go
index 6f8e3e1..b2a2f95 100644
--- a/plurals/exp.go
+++ b/plurals/exp.go
@@ -3,6 +3,7 @@ package plurals
 import (
 	"context"
 	"fmt"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -11,6 +12,9 @@ import (
 	"github.com/youthlin/t/plurals/parser"
 )
 
+// reSplitToken 运算符或数字中间有空格，如 n ! = 1 不是合法的表达式
+var reSplitToken = regexp.MustCompile(`[!=<>] +=|& +&|\| +\||[0-9] +[0-9]`)
+
 // Eval 传入复数表达式，返回 n 应该使用哪种复数形式
 func Eval(ctx context.Context, exp string, n int64) (result int64, err error) {
 	defer func() {
@@ -22,7 +26,7 @@ func Eval(ctx context.Context, exp string, n int64) (result int64, err error) {
 	// 1 常见表达式直接走函数
 	commonExp := strings.ReplaceAll(exp, " ", "")
 	fun, ok := commons[commonExp]
-	if ok {
+	if ok && !reSplitToken.MatchString(exp) {
 		return fun(n), nil
 	}
 
-- 
2.43.0


From 947e25483c4e58f37a7a762711e8d10e7e23a29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 30/40] fix: debug mode of xtemplate writes its log to stderr,
 not into a POT on standard output

---
 cmd/xtemplate/internal/param.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/xtemplate/internal/param.go b/cmd/xtemplate/internal/param.go
index 1a2a7f3..1a2c8dc 100644
--- a/cmd/xtemplate/internal/param.go
+++ b/cmd/xtemplate/internal/param.go
@@ -26,7 +26,7 @@ type Param struct {
 // debugPrint 只在 debug 模式下输出调试日志。
 func (p *Param) debugPrint(format string, args ...any) {
 	if p.Debug {
-		fmt.Printf(format+"\n", args...)
+		fmt.Fprintf(os.Stderr, format+"\n", args...)
 	}
 }
 
-- 
2.43.0


From d44ed39b1a3f40db3b6797827eaf15e1a623aaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 31/40] fix: plural expressions that are very long or deeply
 nested no longer hang or overflow the stack

---
 plurals/exp.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/plurals/exp.go b/plurals/exp.go
index b2a2f95..f384524 100644
--- a/plurals/exp.go
+++ b/plurals/exp.go
@@ -30,6 +30,10 @@ func Eval(ctx context.Context, exp string, n int64) (result int64, err error) {
 		return fun(n), nil
 	}
 
+	if tooComplex(exp) {
+		return 0, errors.Errorf("expression is too long or nested too deeply")
+	}
+
 	// 2 词法解析
 	input := antlr.NewInputStream(exp)
 	lexer := parser.NewpluralLexer(input)
@@ -53,6 +57,26 @@ func Eval(ctx context.Context, exp string, n int64) (result int64, err error) {
 	return l.result, l.err
 }
 
+// 语法分析是递归的, 恶意构造的表达式会耗尽栈空间(无法 recover)或长时间无法结束
+const (
+	maxExpLen   = 1024
+	maxExpDepth = 100
+)
+
+// tooComplex 表达式是否过长或括号嵌套过深
+func tooComplex(exp string) bool {
+	depth := 0
+	for i := 0; i < len(exp) && depth <= maxExpDepth; i++ {
+		switch exp[i] {
+		case '(':
+			depth++
+		case ')':
+			depth--
+		}
+	}
+	return len(exp) > maxExpLen || depth > maxExpDepth
+}
+
 // c syntax accept int(0) as false, none-zero as true
 const (
 	_TRUE  = 1
-- 
2.43.0


From c1a23a83b95a0199299d934b7f0e51ae1b4f1a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:28 +0000
Subject: [PATCH 32/40] fix: saving a text of many lines no longer takes time
 quadratic in their number

---
 translator/wrap.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/translator/wrap.go b/translator/wrap.go
index 3a5609f..3739f58 100644
--- a/translator/wrap.go
+++ b/translator/wrap.go
@@ -8,28 +8,31 @@ const lineThreshold = 77
 
 // split split long text to small parts by blank or newline(\n)
 func split(long string, threshold int) []string {
-	return split0(long, threshold, 0)
+	var lines []string
+	// 不能递归: 行数很多时每层都复制已有的行, 耗时是行数的平方
+	for {
+		index := strings.Index(long, "\n")
+		if index < 0 || index >= len(long)-1 {
+			return append(lines, split0(long, threshold)...)
+		}
+		if len(lines) == 0 {
+			lines = append(lines, "")
+		}
+		lines = append(lines, long[:index+1])
+		long = long[index+1:]
+	}
 }
 
-// split split long text to small parts by blank or newline(\n)
-func split0(long string, threshold int, depth int) []string {
+// split0 split a long line by blank
+func split0(long string, threshold int) []string {
 	length := len(long)
-	if index := strings.Index(long, "\n"); index >= 0 && index < length-1 {
-		left := long[:index+1]
-		right := long[index+1:]
-		prefix := []string{left}
-		if depth == 0 {
-			prefix = []string{"", left}
-		}
-		return append(prefix, split0(right, threshold, depth+1)...)
-	}
 	if length <= threshold {
 		return []string{long}
 	}
 	if index := strings.LastIndex(long, " "); index >= 0 && index < length-1 {
 		left := long[:index+1]
 		right := long[index+1:]
-		return append(split0(left, threshold, depth+1), right)
+		return append(split0(left, threshold), right)
 	}
 	return []string{long}
 }
-- 
2.43.0


From 4cd14b974524a820375c16671195cb54b7d459a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:28 +0000
Subject: [PATCH 33/40] fix: reading a string of many lines no longer takes
 time quadratic in their number

---
 translator/po.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/translator/po.go b/translator/po.go
index 38d3691..b39b133 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -208,8 +208,9 @@ func readEntry(r *reader) (*Entry, error) {
 		// msgid "previous line"
 		// "current line"
 		if strings.HasPrefix(line, prefixQuote) {
-			data, err := removePrefixAndUnquote(line, "")
+			data, err := readQuoted(r, line)
 			if err != nil {
+				line, _ = r.currentLine()
 				return nil, errors.WithSecondaryError(errInvalidEntry,
 					errors.Wrapf(err, "unquote %s failed|line %d: %s", previousLineState, r.lineNo, line))
 			}
@@ -232,6 +233,25 @@ func readEntry(r *reader) (*Entry, error) {
 	}
 }
 
+// readQuoted 读取从 line 开始的连续的字符串行. 一次读完再拼接到字段上, 否则行数很多时耗时是行数的平方
+func readQuoted(r *reader, line string) (string, error) {
+	var sb strings.Builder
+	for {
+		data, err := removePrefixAndUnquote(line, "")
+		if err != nil {
+			return "", err
+		}
+		sb.WriteString(data)
+		line, err = r.nextLine()
+		if err == nil {
+			line = normalizeBlank(line)
+		}
+		if err != nil || !strings.HasPrefix(line, `"`) {
+			return sb.String(), r.unGetLine() // 包括文件结尾, 由调用方处理
+		}
+	}
+}
+
 // normalizeBlank 去掉行首的缩进, 并使关键字和字符串之间只有一个空格.
 // 缩进和制表符都是合法的, 如 msgcat --indent 的输出
 func normalizeBlank(line string) string {
-- 
2.43.0


From 68d51aad61d69dfaef21224d5ae074ec4c49159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 34/40] fix: errors of PO files count lines from 1, not from 0

---
 translator/po.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/translator/po.go b/translator/po.go
index b39b133..0aea1e2 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -138,7 +138,7 @@ func readEntry(r *reader) (*Entry, error) {
 			data, err := removePrefixAndUnquote(line, prefixCtxt)
 			if err != nil {
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote msgctxt failed|line %d: %s", r.lineNo, line))
+					errors.Wrapf(err, "unquote msgctxt failed|line %d: %s", r.lineNo+1, line))
 			}
 			entry.MsgCtxt += data
 			continue
@@ -153,7 +153,7 @@ func readEntry(r *reader) (*Entry, error) {
 			data, err := removePrefixAndUnquote(line, prefixID2)
 			if err != nil {
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote msgid_plural failed|line %d: %s", r.lineNo, line))
+					errors.Wrapf(err, "unquote msgid_plural failed|line %d: %s", r.lineNo+1, line))
 			}
 			entry.MsgID2 += data
 			entry.IsPlural = true
@@ -169,7 +169,7 @@ func readEntry(r *reader) (*Entry, error) {
 			data, err := removePrefixAndUnquote(line, prefixID)
 			if err != nil {
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote msgid failed|line %d: %s", r.lineNo, line))
+					errors.Wrapf(err, "unquote msgid failed|line %d: %s", r.lineNo+1, line))
 			}
 			entry.MsgID += data
 			continue
@@ -184,7 +184,7 @@ func readEntry(r *reader) (*Entry, error) {
 			data, err := removePrefixAndUnquote(line, prefix)
 			if err != nil {
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote %s failed|line %d: %s", prefix, r.lineNo, line))
+					errors.Wrapf(err, "unquote %s failed|line %d: %s", prefix, r.lineNo+1, line))
 			}
 			entry.MsgStrN = append(entry.MsgStrN, data)
 			continue
@@ -199,7 +199,7 @@ func readEntry(r *reader) (*Entry, error) {
 			data, err := removePrefixAndUnquote(line, prefixStr)
 			if err != nil {
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote msgstr failed|line %d: %s", r.lineNo, line))
+					errors.Wrapf(err, "unquote msgstr failed|line %d: %s", r.lineNo+1, line))
 			}
 			entry.MsgStr += data
 			continue
@@ -212,7 +212,7 @@ func readEntry(r *reader) (*Entry, error) {
 			if err != nil {
 				line, _ = r.currentLine()
 				return nil, errors.WithSecondaryError(errInvalidEntry,
-					errors.Wrapf(err, "unquote %s failed|line %d: %s", previousLineState, r.lineNo, line))
+					errors.Wrapf(err, "unquote %s failed|line %d: %s", previousLineState, r.lineNo+1, line))
 			}
 			switch previousLineState {
 			case stateCtxt:
@@ -228,7 +228,7 @@ func readEntry(r *reader) (*Entry, error) {
 			}
 		} else {
 			return nil, errors.WithSecondaryError(errInvalidEntry,
-				errors.Errorf("unexpected line %d: %s", r.lineNo, line))
+				errors.Errorf("unexpected line %d: %s", r.lineNo+1, line))
 		}
 	}
 }
-- 
2.43.0


From a434165868051dc2934d9177e84ebc795a7f212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 35/40] fix: errors.Wrapf keeps its cause when the format names
 argument positions

---
 errors/errors.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/errors/errors.go b/errors/errors.go
index 98c2e26..8736499 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -11,7 +11,8 @@ func Errorf(format string, args ...any) error {
 
 func Wrapf(err error, format string, args ...any) error {
 	args = append(args[:len(args):len(args)], err) // 限制容量，不能写到调用方的底层数组上
-	return fmt.Errorf(format+": %w", args...)
+	// 指定 err 的位置: format 中可能有 %[1]v 这样的占位符，接下来的 %w 就不是 err 了
+	return fmt.Errorf(format+fmt.Sprintf(": %%[%d]w", len(args)), args...)
 }
 
 func WithSecondaryError(err error, additionalErr error) error {
-- 
2.43.0


From aab2b8255add382a2f6c4aa604768317c3c0663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 36/40] fix: messages about keywords and output files whose
 names contain % are not garbled

---
 cmd/xtemplate/internal/keyword.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/cmd/xtemplate/internal/keyword.go b/cmd/xtemplate/internal/keyword.go
index 625f24d..dfbc4e5 100644
--- a/cmd/xtemplate/internal/keyword.go
+++ b/cmd/xtemplate/internal/keyword.go
@@ -33,19 +33,19 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 		if len(nameIndex) == 1 {
 			name := strings.TrimSpace(nameIndex[0])
 			if name == "" {
-				return nil, errors.Errorf(msg)
+				return nil, errors.New(msg)
 			}
 			result = append(result, Keyword{Name: name, MsgID: 1})
 			continue
 		}
 		if len(nameIndex) != 2 {
-			return nil, errors.Errorf(msg)
+			return nil, errors.New(msg)
 		}
 		k := Keyword{
 			Name: strings.TrimSpace(nameIndex[0]),
 		}
 		if k.Name == "" {
-			return nil, errors.Errorf(msg)
+			return nil, errors.New(msg)
 		}
 		index := strings.Split(nameIndex[1], ",")
 		for i := range index {
@@ -55,7 +55,7 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 		case 1:
 			i, err := strconv.ParseInt(index[0], 10, 64)
 			if err != nil {
-				return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number"))
+				return nil, errors.Wrap(err, msg+t.T("msg id index is not a number"))
 			}
 			k.MsgID = int(i)
 		case 2:
@@ -66,25 +66,25 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 				c := i1[:len(i1)-1]
 				cIndex, err := strconv.ParseInt(c, 10, 64)
 				if err != nil {
-					return nil, errors.Wrapf(err, msg+t.T("context index is not a number: %v", c))
+					return nil, errors.Wrap(err, msg+t.T("context index is not a number: %v", c))
 				}
 				k.MsgCtxt = int(cIndex)
 
 				index, err := strconv.ParseInt(i2, 10, 64)
 				if err != nil {
-					return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i2))
+					return nil, errors.Wrap(err, msg+t.T("msg id index is not a number: %v", i2))
 				}
 				k.MsgID = int(index)
 			} else {
 				index, err := strconv.ParseInt(i1, 10, 64)
 				if err != nil {
-					return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i1))
+					return nil, errors.Wrap(err, msg+t.T("msg id index is not a number: %v", i1))
 				}
 				k.MsgID = int(index)
 
 				index, err = strconv.ParseInt(i2, 10, 64)
 				if err != nil {
-					return nil, errors.Wrapf(err, msg+t.T("msg plural index is not a number: %v", i2))
+					return nil, errors.Wrap(err, msg+t.T("msg plural index is not a number: %v", i2))
 				}
 				k.MsgID2 = int(index)
 			}
@@ -93,32 +93,32 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 			i2 := index[1]
 			i3 := index[2]
 			if !strings.HasSuffix(i1, "c") {
-				return nil, errors.Errorf(msg + t.T("context index must end with 'c': %v", i1))
+				return nil, errors.New(msg + t.T("context index must end with 'c': %v", i1))
 			}
 			c := i1[:len(i1)-1]
 			index, err := strconv.ParseInt(c, 10, 64)
 			if err != nil {
-				return nil, errors.Wrapf(err, msg+t.T("msg context index is not a number: %v", c))
+				return nil, errors.Wrap(err, msg+t.T("msg context index is not a number: %v", c))
 			}
 			k.MsgCtxt = int(index)
 
 			index, err = strconv.ParseInt(i2, 10, 64)
 			if err != nil {
-				return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i2))
+				return nil, errors.Wrap(err, msg+t.T("msg id index is not a number: %v", i2))
 			}
 			k.MsgID = int(index)
 
 			index, err = strconv.ParseInt(i3, 10, 64)
 			if err != nil {
-				return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i3))
+				return nil, errors.Wrap(err, msg+t.T("msg id index is not a number: %v", i3))
 			}
 			k.MsgID2 = int(index)
 		default:
-			return nil, errors.Errorf(msg + t.T("too much keyword index"))
+			return nil, errors.New(msg + t.T("too much keyword index"))
 		}
 		for _, pos := range index { // 位置从 1 开始
 			if n, _ := strconv.ParseInt(strings.TrimSuffix(pos, "c"), 10, 64); n < 1 {
-				return nil, errors.Errorf(msg)
+				return nil, errors.New(msg)
 			}
 		}
 		result = append(result, k)
@@ -133,7 +133,7 @@ func Writer(fileName string) (wr *os.File, err error) {
 	if fileName != "" && fileName != "-" {
 		wr, err = os.OpenFile(fileName, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 		if err != nil {
-			err = errors.Wrapf(err, t.T("can not open output file: %s", fileName))
+			err = errors.Wrap(err, t.T("can not open output file: %s", fileName))
 		}
 	}
 	return
-- 
2.43.0


From b7422f5381928956d891a458028df5971d08325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:07 +0000
Subject: [PATCH 37/40] fix: accept catalogs that declare ten or more plural
 forms

---
 translator/plural.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/plural.go b/translator/plural.go
index b7364f5..eb76c52 100644
--- a/translator/plural.go
+++ b/translator/plural.go
@@ -16,7 +16,7 @@ type plural struct {
 }
 
 var (
-	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d)\s*;\s*plural\s*=\s*(.*)\s*;$`)
+	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d+)\s*;\s*plural\s*=\s*(.*)\s*;$`)
 	invalidPluralFn = func(i int64) int { return -1 }
 )
 
-- 
2.43.0


From 55836b1e22db38079fbc86e2c382df5eee133cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 38/40] fix: accept Plural-Forms without a final semicolon, as
 gettext does

---
 translator/plural.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/plural.go b/translator/plural.go
index eb76c52..6f22f83 100644
--- a/translator/plural.go
+++ b/translator/plural.go
@@ -16,7 +16,7 @@ type plural struct {
 }
 
 var (
-	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d+)\s*;\s*plural\s*=\s*(.*)\s*;$`)
+	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d+)\s*;\s*plural\s*=\s*(.*?)\s*;?\s*$`)
 	invalidPluralFn = func(i int64) int { return -1 }
 )
 
-- 
2.43.0


From fc96803cdf4b4fa0cc68f79dbbf7c65db1a4c793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:16 +0000
Subject: [PATCH 39/40] fix: GetUserLang considers every Accept-Language header
 line

---
 http.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/http.go b/http.go
index e6a999b..f7888fc 100644
--- a/http.go
+++ b/http.go
@@ -2,6 +2,7 @@ package t
 
 import (
 	"net/http"
+	"strings"
 
 	"golang.org/x/text/language"
 )
@@ -31,8 +32,9 @@ func GetUserLang(request *http.Request, opts ...getUserLangOpt) string {
 	for _, lang := range langs {
 		supported = append(supported, language.Make(lang))
 	}
-	matcher := language.NewMatcher(supported)                     // 匹配器
-	acceptLangs := request.Header.Get(HTTPHeaderAcceptLanguage)   // 用户支持的语言
+	matcher := language.NewMatcher(supported) // 匹配器
+	// 用户支持的语言: 同名的 header 可以有多行，等价于用逗号连接
+	acceptLangs := strings.Join(request.Header.Values(HTTPHeaderAcceptLanguage), ",")
 	userAccept, _, _ := language.ParseAcceptLanguage(acceptLangs) // 转为 Tag
 	_, index, _ := matcher.Match(userAccept...)                   // 找到最匹配的语言
 	return langs[index]
-- 
2.43.0


From 5524ea4ce202b40f977261460abf81df9299d5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:11 +0000
Subject: [PATCH 40/40] fix: GetUserLang skips unrecognized elements of
 Accept-Language instead of dropping them all

---
 http.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/http.go b/http.go
index f7888fc..90b89e1 100644
--- a/http.go
+++ b/http.go
@@ -35,7 +35,24 @@ func GetUserLang(request *http.Request, opts ...getUserLangOpt) string {
 	matcher := language.NewMatcher(supported) // 匹配器
 	// 用户支持的语言: 同名的 header 可以有多行，等价于用逗号连接
 	acceptLangs := strings.Join(request.Header.Values(HTTPHeaderAcceptLanguage), ",")
-	userAccept, _, _ := language.ParseAcceptLanguage(acceptLangs) // 转为 Tag
-	_, index, _ := matcher.Match(userAccept...)                   // 找到最匹配的语言
+	userAccept := parseAcceptLanguage(acceptLangs) // 转为 Tag
+	_, index, _ := matcher.Match(userAccept...)    // 找到最匹配的语言
 	return langs[index]
 }
+
+// parseAcceptLanguage parse the header, skip unrecognized elements
+// 解析 Accept-Language: 只要有一项不能识别, language.ParseAcceptLanguage 就不返回其他项, 所以出错时跳过不能识别的项
+func parseAcceptLanguage(header string) []language.Tag {
+	tags, _, err := language.ParseAcceptLanguage(header)
+	if err == nil {
+		return tags
+	}
+	var items []string
+	for _, item := range strings.Split(header, ",") {
+		if _, _, err := language.ParseAcceptLanguage(item); err == nil {
+			items = append(items, item)
+		}
+	}
+	tags, _, _ = language.ParseAcceptLanguage(strings.Join(items, ","))
+	return tags
+}
-- 
2.43.0


From a517858a6e799cf9444ea7453d48eb2423653032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:19 +0000
Subject: [PATCH 01/22] fix: ignore letter case and byte length when comparing
 fuzzy subqueries

With the tolerance used up, subqueries were compared case sensitively and
lengths in bytes rejected words that are within the tolerance.
---
 pkg/burl_fuzzy/rank.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/burl_fuzzy/rank.go b/pkg/burl_fuzzy/rank.go
index 7fd2203..8f16c04 100644
--- a/pkg/burl_fuzzy/rank.go
+++ b/pkg/burl_fuzzy/rank.go
@@ -19,6 +19,7 @@ import (
 	"container/heap"
 	"sort"
 	"strings"
+	"unicode/utf8"
 )
 
 type WeightedString struct {
@@ -87,13 +88,13 @@ func GetSubqueryDistance(query string, word string, limit EditorDistance) (dista
 	case limit < 0:
 		return EditorDistance(len(word)) * SubstitutionDistance
 	case limit == 0:
-		if strings.Contains(word, query) {
+		if strings.Contains(strings.ToLower(word), strings.ToLower(query)) {
 			return 0
 		} else {
 			return EditorDistance(len(word)) * SubstitutionDistance
 		}
 	}
-	lenDiff := EditorDistance(len(query)-len(word)) * InsertionDistance
+	lenDiff := EditorDistance(utf8.RuneCountInString(query)-utf8.RuneCountInString(word)) * InsertionDistance
 	if lenDiff > limit {
 		return lenDiff
 	}
-- 
2.43.0


From 5fcf9050e786e0a3172a77634e2580059ecf358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:39 +0000
Subject: [PATCH 02/22] fix: do not share the backing array of UserArgs between
 emacsclient runs

append(UserArgs, ...) wrote into the spare capacity of UserArgs, so that
concurrent requests could run emacsclient with arguments of each other.
---
 pkg/burl_emacs/emacs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_emacs/emacs.go b/pkg/burl_emacs/emacs.go
index 6c79539..eadec96 100644
--- a/pkg/burl_emacs/emacs.go
+++ b/pkg/burl_emacs/emacs.go
@@ -57,7 +57,10 @@ var EnsureFrameLisp = `
 var EmacsServerNotFoundError = errors.New("Emacs server is not running, please, start it")
 
 func execEmacs(args ...string) ([]byte, error) {
-	allArgs := append(UserArgs, Args...)
+	// Requests are served concurrently, so never append to UserArgs itself.
+	allArgs := make([]string, 0, len(UserArgs)+len(Args)+len(args))
+	allArgs = append(allArgs, UserArgs...)
+	allArgs = append(allArgs, Args...)
 	allArgs = append(allArgs, args...)
 	cmd := exec.Command(Command, allArgs...)
 	out, err := cmd.CombinedOutput()
-- 
2.43.0


From e4eab144375c967dba3841b478155d7029d951d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:42 +0000
Subject: [PATCH 03/22] fix: skip insignificant white space left unread at the
 end of a message

JSON decoder does not necessarily consume white space after a value, so
a valid request followed e.g. by a newline broke the connection.
---
 pkg/webextensions/frame.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/pkg/webextensions/frame.go b/pkg/webextensions/frame.go
index 41cb0a0..a0b809a 100644
--- a/pkg/webextensions/frame.go
+++ b/pkg/webextensions/frame.go
@@ -45,18 +45,18 @@ type FrameReader interface {
 // protocol. Internal helper that might be helpful in other application.
 type FrameLimitedReader struct {
 	io.LimitedReader
+	bodyError bool // some data have not been read from the previous packet
 }
 
 var _ FrameReader = (*FrameLimitedReader)(nil)
 
 func NewFrameLimitedReader(reader io.ReadCloser) FrameReader {
-	return &FrameLimitedReader{io.LimitedReader{R: reader, N: 0}}
+	return &FrameLimitedReader{LimitedReader: io.LimitedReader{R: reader, N: 0}}
 }
 
 func (r *FrameLimitedReader) ReadHeader() error {
-	if r.LimitedReader.N != 0 {
-		// TODO maybe just discard
-		return ErrReadBody
+	if err := r.skipTrailingSpace(); err != nil {
+		return err
 	}
 	r.LimitedReader.N = 4
 	var size uint32
@@ -70,6 +70,31 @@ func (r *FrameLimitedReader) ReadHeader() error {
 	return nil
 }
 
+// JSON decoder does not consume whitespaces after a value. Such characters
+// in the end of the packet are not significant, any other unread data
+// is an error.
+func (r *FrameLimitedReader) skipTrailingSpace() error {
+	if r.bodyError {
+		return ErrReadBody
+	}
+	var buf [64]byte
+	for r.LimitedReader.N != 0 {
+		n, err := r.Read(buf[:])
+		for _, c := range buf[:n] {
+			if c != ' ' && c != '\t' && c != '\r' && c != '\n' {
+				r.bodyError = true
+				return ErrReadBody
+			}
+		}
+		if err == io.EOF && r.LimitedReader.N != 0 {
+			return io.ErrUnexpectedEOF
+		} else if err != nil && err != io.EOF {
+			return err
+		}
+	}
+	return nil
+}
+
 type FrameWriter interface {
 	io.Writer
 	WriteFrame() error
-- 
2.43.0


From 2bafe4b2c24dea2218d8ef65ab65b0fcba144d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:24 +0000
Subject: [PATCH 04/22] fix: do not alter invalid UTF-8 in URL variants

A URL with bytes that are not valid UTF-8 was not among its own variants.
---
 pkg/burl_url/url.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/pkg/burl_url/url.go b/pkg/burl_url/url.go
index 85e7b92..ae1f7da 100644
--- a/pkg/burl_url/url.go
+++ b/pkg/burl_url/url.go
@@ -38,29 +38,24 @@ func RedundantTailVariants(url string) []string {
 	if l == 0 {
 		return retval
 	}
-	slice := make([]rune, l)
-	n := 0
-	for _, r := range url {
-		slice[n] = r
-		n++
-	}
-	slice = slice[:n]
-	i := n
-	if i > 0 && slice[i-1] == '#' {
+	// Only ASCII characters may be dropped, so it is safe to work with bytes
+	// and any other part of the URL, even invalid UTF-8, is not affected.
+	i := l
+	if i > 0 && url[i-1] == '#' {
 		i--
 	}
-	for i > 0 && slice[i-1] == '&' {
+	for i > 0 && url[i-1] == '&' {
 		i--
 	}
-	if i > 0 && slice[i-1] == '?' {
+	if i > 0 && url[i-1] == '?' {
 		i--
 	}
-	for i > 0 && slice[i-1] == '/' {
+	for i > 0 && url[i-1] == '/' {
 		i--
 	}
 
-	for ; i <= n; i++ {
-		retval = append(retval, string(slice[:i]))
+	for ; i <= l; i++ {
+		retval = append(retval, url[:i])
 	}
 	return retval
 }
-- 
2.43.0


From 45318d6b7a577cd49ee4e6a04d03da1ffc4f84a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:10 +0000
Subject: [PATCH 05/22] fix: add source options to the requested flag set

AddSourceFlags ignored its argument and always modified the global one.
---
 pkg/burl_links/flag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/burl_links/flag.go b/pkg/burl_links/flag.go
index a68cb56..abd3107 100644
--- a/pkg/burl_links/flag.go
+++ b/pkg/burl_links/flag.go
@@ -54,11 +54,11 @@ func AddSourceFlags(slice *MixedSrcTypeSlice, flagSet *flag.FlagSet) {
 		slice = &MixedSrcNames
 	}
 
-	flag.Var(NewMixedSrcTypeProxyPtr(
+	flagSet.Var(NewMixedSrcTypeProxyPtr(
 		slice,
 		func(value string) TextLinkSource { return TxtLinkSource(value) }),
 		"txt", "Process `FILE` as plain text file (multiple)")
-	flag.Var(NewMixedSrcTypeProxyPtr(
+	flagSet.Var(NewMixedSrcTypeProxyPtr(
 		slice,
 		func(value string) TextLinkSource { return OrgLinkSource(value) }),
 		OrgLinkSource("").Flag(), "Process `FILE` as Emacs Org Mode file (multiple)")
-- 
2.43.0


From a7c8628c675961c4c01f674a12f16c36e5819579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:32 +0000
Subject: [PATCH 06/22] fix: compare complete content and add exactly missed
 permissions in WriteFile

- A file was considered the same if it had 4096 bytes of requested content
  and something else after them.
- Existing file having just one of read or exec permissions was left as is
  and a data file became executable.
- An empty file could not be overwritten even with force.
- A failure of stat caused nil pointer dereference later.
---
 pkg/burl_fileutil/fileutil.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 7e6ac0d..c44727a 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -19,6 +19,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -54,8 +55,11 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 	}
 	stat, err := os.Stat(path)
 	if !errors.Is(err, os.ErrNotExist) {
+		if err != nil {
+			return err
+		}
 		bufLen := 4096
-		if len(content) > bufLen {
+		if len(content) >= bufLen {
 			bufLen += len(content)
 		}
 		data := make([]byte, bufLen)
@@ -64,8 +68,8 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 			return fmt.Errorf("%w: unable to check contents of existing helper", err)
 		}
 		defer file.Close()
-		count, err := file.Read(data)
-		if err != nil {
+		count, err := io.ReadFull(file, data)
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 			return fmt.Errorf("%w: failed to read existing file", err)
 		}
 		if !force {
@@ -79,8 +83,8 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		}
 		if bytes.Equal(data[:count], content) {
 			perm := stat.Mode().Perm()
-			if (mode&0500) != 0 && (perm&0500) == 0 {
-				if err := os.Chmod(path, perm|0500); err != nil {
+			if missed := mode & 0500 &^ perm; missed != 0 {
+				if err := os.Chmod(path, perm|missed); err != nil {
 					return fmt.Errorf("set exec permission: %w", err)
 				}
 			}
-- 
2.43.0


From 13a91d6c116cd7bd6ae4347e3dee00ca01b27fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:02 +0000
Subject: [PATCH 07/22] fix: clamp the requested limit of links

---
 pkg/burl_links/node_count.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/burl_links/node_count.go b/pkg/burl_links/node_count.go
index 2d23fe1..90f136f 100644
--- a/pkg/burl_links/node_count.go
+++ b/pkg/burl_links/node_count.go
@@ -168,6 +168,14 @@ func CountDescendants(inputTree TreeBaseNode, filter Filter) *LimitCountNode {
 }
 
 func FilterChildrenCount(tree *LimitCountNode, target int) *LimitCountNode {
+	// A client may request an arbitrary limit. Clamp it to avoid
+	// out of range slices and integer overflow.
+	if target > tree.Attrs.Count {
+		target = tree.Attrs.Count
+	}
+	if target < 0 {
+		target = 0
+	}
 	tree.Attrs.TargetCount = target
 	queue := NewDepthFirstQueue(tree)
 	for !queue.Empty() {
-- 
2.43.0


From a0605f42e29bb900ea0f7672d1625c57113b00f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:42 +0000
Subject: [PATCH 08/22] fix: attribute Org links to headings of any depth and
 sequence of levels

---
 pkg/burl_links/extract_org.go | 36 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 4704425..b1d68e5 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -126,10 +126,14 @@ func OrgLinkMatchIsUrl(match []string) *Link {
 }
 
 func (_ OrgLinkSource) Extract(file io.Reader, filter Filter) (*TreeChildrenNode, error) {
-	headings := make([]*Heading, 0, 10)
+	// Enclosing headings. Tree nodes are added when the first link is met.
+	type openHeading struct {
+		level   int
+		heading *Heading
+		node    *TreeChildrenNode
+	}
+	headings := make([]openHeading, 0, 10)
 	tree := NewTreeChildrenNode(nil)
-	treeNodes := make([]*TreeChildrenNode, 1, cap(headings)+1)
-	treeNodes[0] = &tree
 	scanner := bufio.NewScanner(file)
 	scanner.Split(bufio.ScanLines)
 	lineNo := 0
@@ -138,29 +142,25 @@ func (_ OrgLinkSource) Extract(file io.Reader, filter Filter) (*TreeChildrenNode
 		lineNo++
 		if matchHeading := reHeading.FindStringSubmatch(line); matchHeading != nil {
 			level := len(matchHeading[1])
-			if level > cap(headings) {
-				level = cap(headings) - 1
-			}
-			headings = headings[0 : level-1]
-			if len(treeNodes) >= level {
-				treeNodes = treeNodes[0:level]
-			}
-			for i := len(headings); i < level-1; i++ {
-				headings = append(headings, nil)
+			for len(headings) > 0 && headings[len(headings)-1].level >= level {
+				headings = headings[:len(headings)-1]
 			}
 			h := &Heading{lineNo, matchHeading[2]}
-			headings = append(headings, h)
+			headings = append(headings, openHeading{level, h, nil})
 		}
 		if matchArray := reLink.FindAllStringSubmatch(line, -1); matchArray != nil {
 			for _, match := range matchArray {
 				if link := OrgLinkMatchIsUrl(match); link != nil &&
 					(filter == nil || filter(link)) {
-					for i := len(treeNodes) - 1; i < len(headings); i++ {
-						newNode := NewTreeChildrenNode(headings[i])
-						treeNodes = append(treeNodes, &newNode)
-						treeNodes[i].AddChild(&newNode)
+					tip := &tree
+					for i := range headings {
+						if headings[i].node == nil {
+							newNode := NewTreeChildrenNode(headings[i].heading)
+							headings[i].node = &newNode
+							tip.AddChild(&newNode)
+						}
+						tip = headings[i].node
 					}
-					tip := treeNodes[len(treeNodes)-1]
 					link.LineNo = lineNo
 					tip.AddLink(link)
 				}
-- 
2.43.0


From af9750403b548675ce4aded138a74c408315fb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:44 +0000
Subject: [PATCH 09/22] fix: recognize Org headings with trailing white space

---
 pkg/burl_links/extract_org.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index b1d68e5..51dc856 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -25,7 +25,7 @@ import (
 	"strings"
 )
 
-var reHeading = regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?$`)
+var reHeading = regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?\s*$`)
 
 // "mid": mail messages, absent in default Org configuration, see
 // RFC 2392 - Content-ID and Message-ID Uniform Resource Locators
-- 
2.43.0


From 518cd1550a01dca2ec0eca011b0eb55a4b35b6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:11 +0000
Subject: [PATCH 10/22] fix: match complete schemes of bracket links

---
 pkg/burl_links/extract_org.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 51dc856..28c84a3 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -32,7 +32,7 @@ var reHeading = regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?\s*$`)
 // https://datatracker.ietf.org/doc/html/rfc2392.html
 var SchemeVariants []string = []string{"doi", "https?", "mid"}
 var reSchemeStr = MakeSchemeReStr(SchemeVariants)
-var reScheme = regexp.MustCompile("^" + reSchemeStr + ":")
+var reScheme = regexp.MustCompile("^(?:" + reSchemeStr + "):")
 var reBracketStr = "\\[\\[((?:[^\\]\\[]|\\\\(?:\\\\\\\\)*[\\]\\[]|\\\\+[^\\]\\[])+)](?:\\[((?:.|\n)+?)\\])?\\]"
 var reAngleSuffixStr = "[^>\n]*(?:\n[ \t]*[^> \t\n][^> \n]*)*"
 var rePlainSuffixStr = "(?:[^][ \t\n(\\)<>]|\\((?:[^][ \t\n(\\)<>]|\\([^][ \t\n(\\)<>]*\\))*\\))+(?:[^[:punct:] \t\n]|/|\\((?:[^][ \t\n(\\)<>]|\\([^][ \t\n(\\)<>]*\\))*\\))"
@@ -64,7 +64,7 @@ func UpdateRe(schemeVariants []string) error {
 	if schemeStr == "" {
 		return errors.New("No scheme variants")
 	}
-	reSchemeTmp, err := regexp.Compile("^" + schemeStr + ":")
+	reSchemeTmp, err := regexp.Compile("^(?:" + schemeStr + "):")
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b55589aca4487a1afdf28b1b3fc6d53794664ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:49 +0000
Subject: [PATCH 11/22] fix: do not require two characters after a prefix of
 linkSet

---
 pkg/burl_links/extract_org.go | 49 ++++++++++++++++++++++++-----------
 pkg/burl_links/extract_txt.go | 19 +++-----------
 2 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 28c84a3..3b0e7b1 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -189,11 +189,35 @@ func MakeLinkSetBase(filters []string) (string, error) {
 	return "(?:" + strings.Join(base, "|") + ")", nil
 }
 
+// Like MakeLinkSetBase but prefixes are reduced to their schemes.
+func makeLinkSetSchemeBase(filters []string) (string, error) {
+	if _, err := MakeLinkSetBase(filters); err != nil {
+		return "", err
+	}
+	schemes := make([]string, len(filters))
+	for i, prefix := range filters {
+		schemes[i] = strings.SplitN(prefix, ":", 2)[0]
+	}
+	return MakeLinkSetBase(schemes)
+}
+
+func hasLinkSetPrefix(link string, filters []string) bool {
+	for _, prefix := range filters {
+		if !strings.Contains(prefix, ":") {
+			prefix += ":"
+		}
+		if strings.HasPrefix(link, prefix) {
+			return true
+		}
+	}
+	return false
+}
+
 // TODO: buld filter regexp ones for several files.
 func (_ OrgLinkSource) ExtractSet(file io.Reader, filters []string, result *map[string]bool) error {
 	scanner := bufio.NewScanner(file)
 	scanner.Split(bufio.ScanLines)
-	base, err := MakeLinkSetBase(filters)
+	base, err := makeLinkSetSchemeBase(filters)
 	if err != nil {
 		return err
 	}
@@ -203,10 +227,6 @@ func (_ OrgLinkSource) ExtractSet(file io.Reader, filters []string, result *map[
 	if err != nil {
 		return err
 	}
-	reBracketPrefix, err := regexp.Compile("^" + base)
-	if err != nil {
-		return err
-	}
 	for scanner.Scan() {
 		line := scanner.Text()
 		matchArray := reSetLink.FindAllStringSubmatch(line, -1)
@@ -214,16 +234,15 @@ func (_ OrgLinkSource) ExtractSet(file io.Reader, filters []string, result *map[
 			continue
 		}
 		for _, match := range matchArray {
-			if bracket := match[1]; len(bracket) > 0 {
-				if reBracketPrefix.MatchString(bracket) {
-					(*result)[bracket] = true
-				}
-			} else if angle := match[3]; len(angle) > 0 {
-				(*result)[angle] = true
-			} else if plain := match[4]; len(plain) > 0 {
-				(*result)[plain] = true
-			} else {
-				log.Printf("burl_links.OrgLinkSource.ExtractSet: internal error '%v'", match[0])
+			link := match[1]
+			if len(link) == 0 {
+				link = match[3]
+			}
+			if len(link) == 0 {
+				link = match[4]
+			}
+			if hasLinkSetPrefix(link, filters) {
+				(*result)[link] = true
 			}
 		}
 	}
diff --git a/pkg/burl_links/extract_txt.go b/pkg/burl_links/extract_txt.go
index 9c56289..16e282d 100644
--- a/pkg/burl_links/extract_txt.go
+++ b/pkg/burl_links/extract_txt.go
@@ -18,7 +18,6 @@ package burl_links
 import (
 	"bufio"
 	"io"
-	"log"
 	"regexp"
 )
 
@@ -104,7 +103,7 @@ func ExtractUrls(cb func(match []string) bool, file io.Reader) error {
 func (_ TxtLinkSource) ExtractSet(file io.Reader, filters []string, result *map[string]bool) error {
 	scanner := bufio.NewScanner(file)
 	scanner.Split(bufio.ScanLines)
-	base, err := MakeLinkSetBase(filters)
+	base, err := makeLinkSetSchemeBase(filters)
 	if err != nil {
 		return err
 	}
@@ -113,10 +112,6 @@ func (_ TxtLinkSource) ExtractSet(file io.Reader, filters []string, result *map[
 	if err != nil {
 		return err
 	}
-	reBracketPrefix, err := regexp.Compile("^" + base)
-	if err != nil {
-		return err
-	}
 	for scanner.Scan() {
 		line := scanner.Text()
 		matchArray := reSetLink.FindAllStringSubmatch(line, -1)
@@ -124,16 +119,8 @@ func (_ TxtLinkSource) ExtractSet(file io.Reader, filters []string, result *map[
 			continue
 		}
 		for _, match := range matchArray {
-			if bracket := match[1]; len(bracket) > 0 {
-				if reBracketPrefix.MatchString(bracket) {
-					(*result)[bracket] = true
-				}
-			} else if angle := match[3]; len(angle) > 0 {
-				(*result)[angle] = true
-			} else if plain := match[4]; len(plain) > 0 {
-				(*result)[plain] = true
-			} else {
-				log.Printf("burl_links.TxtLinkSource.ExtractSet: internal error '%v'", match[0])
+			if link := match[1]; hasLinkSetPrefix(link, filters) {
+				(*result)[link] = true
 			}
 		}
 	}
-- 
2.43.0


From dfe225966d06d1f94e16fbdcdbdc72f8739cfb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:07 +0000
Subject: [PATCH 12/22] fix: refuse malformed linkSet requests even if there
 are no files

---
 pkg/burl_links/link_source.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_links/link_source.go b/pkg/burl_links/link_source.go
index 85ecc20..de861dd 100644
--- a/pkg/burl_links/link_source.go
+++ b/pkg/burl_links/link_source.go
@@ -79,7 +79,11 @@ func ExtractLinksFromFileGroup(list []TextLinkSource, filter Filter) (*TreeChild
 
 func ExtractLinkSetFromFileGroup(list []TextLinkSource, filters []string) (map[string]bool, error) {
 	result := map[string]bool{}
-	var err error
+	// Validate prefixes even if there is no file.
+	_, err := MakeLinkSetBase(filters)
+	if err != nil {
+		return result, err
+	}
 	for _, src := range list {
 		var reader io.Reader
 		name := src.Name()
-- 
2.43.0


From e27e662e804b160b14a7ae1505e7b12a1ba6ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:26 +0000
Subject: [PATCH 13/22] fix: burl_tool lists only links to the requested URL

Variants of the URL were computed but not used, so every link was printed
for any query.
---
 cmd/burl_tool/burl_tool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/burl_tool/burl_tool.go b/cmd/burl_tool/burl_tool.go
index d5638ab..6de4dec 100644
--- a/cmd/burl_tool/burl_tool.go
+++ b/cmd/burl_tool/burl_tool.go
@@ -63,7 +63,7 @@ func mainWithGracefulShutdown() error {
 	nextArg := 0
 	variants := make([]string, 0, 8)
 	if len(set) == 0 {
-		burl_url.UrlVariants(flag.Arg(0))
+		variants = append(variants, burl_url.UrlVariants(flag.Arg(0))...)
 		nextArg = 1
 	}
 	queryIsEmpty := len(variants) == 0
-- 
2.43.0


From c93a29020bbfe7bc721a9a6b77493dc2a3bec615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:38 +0000
Subject: [PATCH 14/22] fix: quote wrapper arguments without $'...'

printf %q represents control characters, and non-ASCII ones unless locale
is UTF-8, as $'...'. It is not supported by dash, so wrapper passed
other options than requested.
---
 pkg/burl_fileutil/escape_printf.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/burl_fileutil/escape_printf.go b/pkg/burl_fileutil/escape_printf.go
index ce2f0d7..5115f96 100644
--- a/pkg/burl_fileutil/escape_printf.go
+++ b/pkg/burl_fileutil/escape_printf.go
@@ -17,10 +17,17 @@
 
 package burl_fileutil
 
-import "os/exec"
+import (
+	"errors"
+	"strings"
+)
 
-// TODO avoid printf external process
+// Quotes arg for POSIX shell. The %q format of /usr/bin/printf
+// is not suitable since for control and non-ASCII characters it uses $'...'
+// that is not supported by dash.
 func EscapeShellArg(arg string) (string, error) {
-	out, err := exec.Command("/usr/bin/printf", "%q", arg).Output()
-	return string(out), err
+	if strings.IndexByte(arg, 0) >= 0 {
+		return "", errors.New("Zero byte can not be a part of shell argument")
+	}
+	return "'" + strings.ReplaceAll(arg, "'", `'\''`) + "'", nil
 }
-- 
2.43.0


From 695680aaff4363434826db5e0afe2e7a827dd92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:53 +0000
Subject: [PATCH 15/22] fix: correct length of the wrapper error message

Length byte was broken for messages longer than 255 bytes and, if shell
counts characters, for non-ASCII paths. Control characters in backend path
made JSON invalid.
---
 cmd/burl_backend/install.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/burl_backend/install.go b/cmd/burl_backend/install.go
index c4a1e1d..1cf13d3 100644
--- a/cmd/burl_backend/install.go
+++ b/cmd/burl_backend/install.go
@@ -130,9 +130,12 @@ BURL_BACKEND=%s
 # "trap HANDLER EXIT" is ignored as well. So a test is required.
 [ -x "$BURL_BACKEND" ] && \
 	exec "$BURL_BACKEND" %s
-err="{\"error\": \"$(printf '%%s' "$BURL_BACKEND" | tr '\\"' "/'"): file not found or not executable\"}"
+err="{\"error\": \"$(printf '%%s' "$BURL_BACKEND" | tr '\\"[:cntrl:]' "/' "): file not found or not executable\"}"
+# Count bytes, not characters.
+LC_ALL=C
+len=${#err}
 # platform endian-dependent hack
-/usr/bin/printf "\\x$(printf '%%x' "${#err}")\\x00\\x00\\x00"
+/usr/bin/printf "$(printf '\\x%%02x' $((len %% 256)) $((len / 256)))\\x00\\x00"
 printf '%%s' "$err"
 `
 			content := fmt.Sprintf(template, exe, strings.Join(escaped_args, " "))
-- 
2.43.0


From be71929f3f72cd33c68af33bd881e4476cfaa0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:42 +0000
Subject: [PATCH 16/22] fix: report a missing backend command before -- in
 burl_client

---
 tools/burl_client/burl_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/burl_client/burl_client.go b/tools/burl_client/burl_client.go
index 906f9a7..db919a3 100644
--- a/tools/burl_client/burl_client.go
+++ b/tools/burl_client/burl_client.go
@@ -119,7 +119,7 @@ func mainWithGracefulShutdown() error {
 			break
 		}
 	}
-	if flag.NArg() == 0 {
+	if separator == 0 {
 		return fmt.Errorf("%w: backend command is not specified", usageError)
 	}
 	backendCmd := flag.Args()[0]
-- 
2.43.0


From 470d39373b74cf0cb9bb03fd9e9f93798278b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 17/22] fix: drop a partly written message when its codec fails

---
 pkg/webextensions/client.go | 1 +
 pkg/webextensions/server.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/webextensions/client.go b/pkg/webextensions/client.go
index 543b5b9..3674c29 100644
--- a/pkg/webextensions/client.go
+++ b/pkg/webextensions/client.go
@@ -33,6 +33,7 @@ var _ rpc.ClientCodec = (*clientCodec)(nil)
 
 func (c *clientCodec) WriteRequest(r *rpc.Request, param interface{}) error {
 	if err := c.ClientCodec.WriteRequest(r, param); err != nil {
+		c.Framer.Discard()
 		return err
 	}
 	return c.Framer.WriteFrame()
diff --git a/pkg/webextensions/server.go b/pkg/webextensions/server.go
index c2de1e6..7b65393 100644
--- a/pkg/webextensions/server.go
+++ b/pkg/webextensions/server.go
@@ -43,6 +43,7 @@ func (c *serverCodec) ReadRequestHeader(r *rpc.Request) error {
 
 func (c *serverCodec) WriteResponse(r *rpc.Response, x interface{}) error {
 	if err := c.ServerCodec.WriteResponse(r, x); err != nil {
+		c.Framer.Discard()
 		return err
 	}
 	if err := c.Framer.WriteFrame(); err != nil {
-- 
2.43.0


From fd20b0761dc74623236cd19016c41b20c75a6cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 18/22] fix: report a failure to print results of burl_tool

---
 cmd/burl_tool/burl_tool.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/burl_tool/burl_tool.go b/cmd/burl_tool/burl_tool.go
index 6de4dec..d7d20e2 100644
--- a/cmd/burl_tool/burl_tool.go
+++ b/cmd/burl_tool/burl_tool.go
@@ -79,7 +79,9 @@ func mainWithGracefulShutdown() error {
 			return err
 		}
 		for key, _ := range result {
-			fmt.Println(key)
+			if _, err := fmt.Println(key); err != nil {
+				return err
+			}
 		}
 		return nil
 	}
@@ -107,7 +109,9 @@ func mainWithGracefulShutdown() error {
 		if attrTree != nil {
 			enc := json.NewEncoder(os.Stdout)
 			enc.SetIndent("", "  ")
-			enc.Encode(attrTree)
+			if errPrint := enc.Encode(attrTree); errPrint != nil {
+				return errPrint
+			}
 			// enc.Encode(group)
 		}
 	}
-- 
2.43.0


From e6bdd6ac08fb778c407b535dde71b4b63d32d29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 19/22] fix: report a failure to print results of burl_client

---
 tools/burl_client/burl_client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/burl_client/burl_client.go b/tools/burl_client/burl_client.go
index db919a3..140a0d7 100644
--- a/tools/burl_client/burl_client.go
+++ b/tools/burl_client/burl_client.go
@@ -164,7 +164,9 @@ func mainWithGracefulShutdown() error {
 	if err = rpcClient.Call(method, data, &reply); err == nil {
 		enc := json.NewEncoder(os.Stdout)
 		enc.SetIndent("", "  ")
-		enc.Encode(reply)
+		if err := enc.Encode(reply); err != nil {
+			return fmt.Errorf("%s print: %w", subcommandName, err)
+		}
 	} else {
 		return fmt.Errorf("%s response: %w", subcommandName, err)
 	}
-- 
2.43.0


From 1ceffef295fdb88373b1dbb0539aab17e5dba764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:25 +0000
Subject: [PATCH 20/22] fix: report data of a wrapper or manifest lost on close
 before replacing the target

---
 pkg/burl_fileutil/fileutil.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index c44727a..a77ea04 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -107,6 +107,11 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		os.Remove(f.Name()) // unlinkat(2) ?
 		return err
 	}
+	// Data may be discovered to be lost only while the file is being closed.
+	if err := f.Close(); err != nil {
+		os.Remove(f.Name()) // unlinkat(2) ?
+		return err
+	}
 	// renameat(2) ?
 	if err := os.Rename(f.Name(), path); err != nil {
 		os.Remove(f.Name()) // unlinkat(2) ?
-- 
2.43.0


From 394217cbf1b7ff9ae8a6532a52d214eb92d68d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:47 +0000
Subject: [PATCH 21/22] fix: distances above 32767 were reported as 32767

A query of more than 32767 characters was considered closer to a link than
it is, so it might be accepted despite exceeding the requested tolerance.
---
 pkg/burl_fuzzy/approsearch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/burl_fuzzy/approsearch.go b/pkg/burl_fuzzy/approsearch.go
index f145c20..098713d 100644
--- a/pkg/burl_fuzzy/approsearch.go
+++ b/pkg/burl_fuzzy/approsearch.go
@@ -31,7 +31,7 @@ const (
 	DeletionDistance      = EditorDistance(1)
 	InsertionDistance     = EditorDistance(1)
 	SubstitutionDistance  = EditorDistance(1)
-	CutCost               = EditorDistance(32767)
+	CutCost               = EditorDistance(1<<31 - 1)
 )
 
 func SameRuneDistance(p rune, w rune) EditorDistance {
-- 
2.43.0


From 0815c813a1256e21a1a131735d8de54b1f7cf0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:46 +0000
Subject: [PATCH 22/22] fix: refuse to write a manifest with a path, name or
 identifier that is not UTF-8

Invalid bytes were silently replaced by U+FFFD, so the generated manifest
referred to a program that does not exist and success was reported.
---
 pkg/webextensions/manifest.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/webextensions/manifest.go b/pkg/webextensions/manifest.go
index 1bae90a..0dc2401 100644
--- a/pkg/webextensions/manifest.go
+++ b/pkg/webextensions/manifest.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"strings"
+	"unicode/utf8"
 )
 
 // Due to excessive number of fields, there is no point in New function.
@@ -62,6 +63,13 @@ func (m *Manifest) Init() error {
 				m.ManifestPath, m.Name)
 		}
 	}
+	// Invalid bytes would be silently replaced, so e.g. Path would become wrong.
+	values := append([]string{m.Name, m.Path}, m.AllowedOrigins...)
+	for _, value := range append(values, m.AllowedExtensions...) {
+		if !utf8.ValidString(value) {
+			return fmt.Errorf("%q: not UTF-8, can not be put into manifest", value)
+		}
+	}
 	m.Type = "stdio"
 	return nil
 }
-- 
2.43.0


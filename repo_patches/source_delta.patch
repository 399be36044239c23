From 6da2acfa21f577560e38270e8fc2de077a32d0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 1/9] fix: report an error for every rejected input

Parse returned (nil, nil), and the Parse function (nil, true), for inputs
such as urn:ex:a?x or urn:ex:a#b#c in RFC8141Only mode.
---
 machine.go    | 6 ++++++
 machine.go.rl | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/machine.go b/machine.go
index aec1ba6..9b9493a 100644
--- a/machine.go
+++ b/machine.go
@@ -24,6 +24,7 @@ var (
 	err8141QComponentStart = "expecting only one q-component (starting with the ?= sequence) [col %d]"
 	err8141MalformedRComp  = "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
 	err8141MalformedQComp  = "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
+	errMalformed           = "expecting a well-formed URN [col %d]"
 )
 var _toStateActions []byte = []byte{
 	0, 0, 0, 0, 0, 0, 0, 0,
@@ -5026,6 +5027,11 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	}
 
 	if m.cs < firstFinal || m.cs == enFail {
+		// Not every error transition carries its own error: never fail without one
+		if m.err == nil {
+			m.err = fmt.Errorf(errMalformed, m.p)
+		}
+
 		return nil, m.err
 	}
 
diff --git a/machine.go.rl b/machine.go.rl
index 0a17421..72ebd78 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -24,6 +24,7 @@ var (
     err8141QComponentStart = "expecting only one q-component (starting with the ?= sequence) [col %d]"
     err8141MalformedRComp  = "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
     err8141MalformedQComp  = "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
+    errMalformed           = "expecting a well-formed URN [col %d]"
 )
 
 %%{
@@ -366,6 +367,11 @@ func (m *machine) Parse(input []byte) (*URN, error) {
     %% write exec;
 
     if m.cs < first_final || m.cs == en_fail {
+        // Not every error transition carries its own error: never fail without one
+        if m.err == nil {
+            m.err = fmt.Errorf(errMalformed, m.p)
+        }
+
         return nil, m.err
     }
 
-- 
2.43.0


From 94e3949bb0c1b68f110f2a2ab30cae74265ed749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 2/9] fix: make the Default parsing mode select a grammar

WithParsingMode(Default), like any unknown value, selected no start state:
every input was rejected with a nil error.
---
 machine.go    | 7 ++++++-
 machine.go.rl | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/machine.go b/machine.go
index 9b9493a..729cf83 100644
--- a/machine.go
+++ b/machine.go
@@ -5039,7 +5039,12 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 }
 
 func (m *machine) WithParsingMode(x ParsingMode) {
-	m.parsingMode = x
+	switch x {
+	case RFC2141Only, RFC7643Only, RFC8141Only:
+		m.parsingMode = x
+	default:
+		m.parsingMode = DefaultParsingMode
+	}
 	switch m.parsingMode {
 	case RFC2141Only:
 		m.startParsingAt = enMain
diff --git a/machine.go.rl b/machine.go.rl
index 72ebd78..e32b559 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -379,7 +379,12 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 }
 
 func (m *machine) WithParsingMode(x ParsingMode) {
-    m.parsingMode = x
+    switch x {
+        case RFC2141Only, RFC7643Only, RFC8141Only:
+            m.parsingMode = x
+        default:
+            m.parsingMode = DefaultParsingMode
+    }
     switch m.parsingMode {
         case RFC2141Only:
             m.startParsingAt = en_main
-- 
2.43.0


From dd2757568921bd44148a49251ac5b989e4501c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 3/9] fix: accept the three-letter identifiers starting with u

Any RFC 2141 identifier of three chars starting with u, such as uci in
urn:uci:I001+SBSi-B10000083052, was taken for the reserved one (urn).
---
 machine.go    | 4 ++--
 machine.go.rl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/machine.go b/machine.go
index 729cf83..a29f6bf 100644
--- a/machine.go
+++ b/machine.go
@@ -4360,8 +4360,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		if m.parsingMode != RFC8141Only {
 			// Throw an error when:
 			// - we are entering here matching the the prefix in the namespace identifier part
-			// - looking ahead (3 chars) we find a colon
-			if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" {
+			// - looking ahead (3 chars) we find a colon, and the chars up to it are the prefix
+			if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" && m.data[m.p+1]|32 == 'r' && m.data[m.p+2]|32 == 'n' {
 				m.err = fmt.Errorf(errNoUrnWithinID, pos)
 				(m.p)--
 
diff --git a/machine.go.rl b/machine.go.rl
index e32b559..60c2bef 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -50,8 +50,8 @@ action throw_pre_urn_err {
     if m.parsingMode != RFC8141Only {
         // Throw an error when:
         // - we are entering here matching the the prefix in the namespace identifier part
-        // - looking ahead (3 chars) we find a colon
-        if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" {
+        // - looking ahead (3 chars) we find a colon, and the chars up to it are the prefix
+        if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" && m.data[m.p+1]|32 == 'r' && m.data[m.p+2]|32 == 'n' {
             m.err = fmt.Errorf(errNoUrnWithinID, pos)
             fhold;
             fgoto fail;
-- 
2.43.0


From c11abe66e092027070d02e8cec7a0df0d4fa3851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 4/9] fix: never write to the input while parsing

Normalizing lowered, then restored, letters in the buffer of the caller: a
data race when the same input is parsed by more goroutines, or is read-only.
---
 machine.go    | 62 ++++++++++++++-------------------------------------
 machine.go.rl | 22 ++++++++++--------
 2 files changed, 30 insertions(+), 54 deletions(-)

diff --git a/machine.go b/machine.go
index a29f6bf..8938a99 100644
--- a/machine.go
+++ b/machine.go
@@ -135,6 +135,18 @@ func (m *machine) text() []byte {
 	return m.data[m.pb:m.p]
 }
 
+// lowered returns the current text with the upper letters at the given positions lowercased.
+//
+// It works on a copy, since the input belongs to the caller (which may be sharing it).
+func (m *machine) lowered(positions []int) string {
+	text := []byte(string(m.text()))
+	for _, i := range positions {
+		text[i] = text[i] + 32
+	}
+
+	return string(text)
+}
+
 // Parse parses the input byte array as a RFC 2141 or RFC7643 string.
 func (m *machine) Parse(input []byte) (*URN, error) {
 	m.data = input
@@ -4171,15 +4183,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	f38:
 
 		output.SS = string(m.text())
-		// Iterate upper letters lowering them
-		for _, i := range output.tolower {
-			m.data[m.pb+i] = m.data[m.pb+i] + 32
-		}
-		output.norm = string(m.text())
-		// Revert the buffer to the original
-		for _, i := range output.tolower {
-			m.data[m.pb+i] = m.data[m.pb+i] - 32
-		}
+		output.norm = m.lowered(output.tolower)
 
 		goto _again
 	f0:
@@ -4746,30 +4750,14 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			case 34:
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				output.norm = m.lowered(output.tolower)
 
 				output.kind = RFC2141
 
 			case 38:
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				output.norm = m.lowered(output.tolower)
 
 				output.kind = RFC8141
 
@@ -4958,15 +4946,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				output.scim.Name = string(m.data[output.scim.pos:m.p])
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				output.norm = m.lowered(output.tolower)
 
 				output.kind = RFC7643
 
@@ -4975,15 +4955,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				output.scim.Other = string(m.data[output.scim.pos:m.p])
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				output.norm = m.lowered(output.tolower)
 
 				output.kind = RFC7643
 
diff --git a/machine.go.rl b/machine.go.rl
index 60c2bef..3a3968d 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -65,15 +65,7 @@ action set_nid {
 
 action set_nss {
     output.SS = string(m.text())
-    // Iterate upper letters lowering them
-    for _, i := range output.tolower {
-        m.data[m.pb+i] = m.data[m.pb+i] + 32
-    }
-    output.norm = string(m.text())
-    // Revert the buffer to the original
-    for _, i := range output.tolower {
-        m.data[m.pb+i] = m.data[m.pb+i] - 32
-    }
+    output.norm = m.lowered(output.tolower)
 }
 
 action err_pre {
@@ -351,6 +343,18 @@ func (m *machine) text() []byte {
     return m.data[m.pb:m.p]
 }
 
+// lowered returns the current text with the upper letters at the given positions lowercased.
+//
+// It works on a copy, since the input belongs to the caller (which may be sharing it).
+func (m *machine) lowered(positions []int) string {
+    text := []byte(string(m.text()))
+    for _, i := range positions {
+        text[i] = text[i] + 32
+    }
+
+    return string(text)
+}
+
 // Parse parses the input byte array as a RFC 2141 or RFC7643 string.
 func (m *machine) Parse(input []byte) (*URN, error) {
     m.data = input
-- 
2.43.0


From 07275f8caa20a87a3dddc559a0d8692ae409013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 5/9] fix: keep the specific string when normalizing twice

Normalizing a normalized URN, or one not coming from parsing, lost its
specific string: Equal took any two of them with the same ID for equal.
---
 urn.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/urn.go b/urn.go
index 894d625..04d8bbe 100644
--- a/urn.go
+++ b/urn.go
@@ -34,16 +34,42 @@ type URN struct {
 //
 // Which means: lowercase prefix, lowercase namespace identifier, and immutate namespace specific string chars (except <hex> tokens which are lowercased).
 func (u *URN) Normalize() *URN {
+	norm := u.norm
+	if norm == "" {
+		// Not coming from parsing
+		norm = lowerHex(u.SS)
+	}
+
 	return &URN{
 		prefix: "urn",
 		ID:     strings.ToLower(u.ID),
-		SS:     u.norm,
+		SS:     norm,
+		norm:   norm,
 		// rComponent: u.rComponent,
 		// qComponent: u.qComponent,
 		// fComponent: u.fComponent,
 	}
 }
 
+// lowerHex lowers the upper letters of the <hex> tokens of a namespace specific string.
+func lowerHex(ss string) string {
+	text := []byte(ss)
+	hex := 0 // How many chars of the current token are still to come
+	for i := 0; i < len(ss); i++ {
+		switch c := ss[i]; {
+		case c == '%':
+			hex = 2
+		case hex > 0:
+			if 'A' <= c && c <= 'Z' {
+				text[i] = c + 32
+			}
+			hex--
+		}
+	}
+
+	return string(text)
+}
+
 // Equal checks the lexical equivalence of the current URN with another one.
 func (u *URN) Equal(x *URN) bool {
 	if x == nil {
-- 
2.43.0


From b2a305d1f5ab8b272ecac95f91b7caad5b922a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 6/9] fix: marshal the zero URN8141 like the zero URN

It panicked, dereferencing the missing URN.
---
 urn8141.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/urn8141.go b/urn8141.go
index da4dd06..46e166b 100644
--- a/urn8141.go
+++ b/urn8141.go
@@ -12,6 +12,10 @@ type URN8141 struct {
 }
 
 func (u URN8141) MarshalJSON() ([]byte, error) {
+	if u.URN == nil {
+		return json.Marshal("")
+	}
+
 	return json.Marshal(u.String())
 }
 
-- 
2.43.0


From 04d4c7acbebd2cd34f82a8328df2630e093f457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 7/9] fix: reject a second r- or q-component followed by a
 slash

---
 machine.go    | 270 ++++++++++++++++++++++++++++++++------------------
 machine.go.rl |   4 +-
 2 files changed, 173 insertions(+), 101 deletions(-)

diff --git a/machine.go b/machine.go
index 8938a99..8ac3a80 100644
--- a/machine.go
+++ b/machine.go
@@ -51,7 +51,7 @@ var _toStateActions []byte = []byte{
 	0, 0, 0, 33, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0,
+	0, 0, 0, 0,
 }
 
 var _eofActions []byte = []byte{
@@ -79,7 +79,7 @@ var _eofActions []byte = []byte{
 	21, 22, 22, 22, 34, 34, 35, 37,
 	37, 38, 40, 41, 41, 38, 42, 42,
 	42, 44, 42, 48, 48, 48, 50, 44,
-	50, 0,
+	42, 50, 48, 0,
 }
 
 const start int = 1
@@ -87,7 +87,7 @@ const firstFinal int = 172
 
 const enScimOnly int = 44
 const enRfc8141Only int = 83
-const enFail int = 193
+const enFail int = 195
 const enMain int = 1
 
 // Machine is the interface representing the FSM
@@ -2343,8 +2343,6 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr233
 			case 37:
 				goto tr234
-			case 47:
-				goto tr226
 			case 61:
 				goto tr232
 			case 63:
@@ -2525,8 +2523,6 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr244
 			case 37:
 				goto tr245
-			case 47:
-				goto tr238
 			case 61:
 				goto tr243
 			case 63:
@@ -2590,31 +2586,63 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr233
 			case 37:
 				goto tr234
+			case 47:
+				goto tr247
 			case 61:
 				goto tr232
 			case 63:
-				goto tr247
+				goto tr248
 			case 95:
 				goto tr232
 			case 126:
 				goto tr232
 			}
 			switch {
+			case (m.data)[(m.p)] < 64:
+				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
+					goto tr232
+				}
+			case (m.data)[(m.p)] > 90:
+				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
+					goto tr232
+				}
+			default:
+				goto tr232
+			}
+			goto tr185
+		case 192:
+			switch (m.data)[(m.p)] {
+			case 33:
+				goto tr226
+			case 35:
+				goto tr227
+			case 37:
+				goto tr228
+			case 61:
+				goto tr226
+			case 63:
+				goto tr249
+			case 95:
+				goto tr226
+			case 126:
+				goto tr226
+			}
+			switch {
 			case (m.data)[(m.p)] < 48:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 46 {
-					goto tr232
+					goto tr226
 				}
 			case (m.data)[(m.p)] > 59:
 				switch {
 				case (m.data)[(m.p)] > 90:
 					if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-						goto tr232
+						goto tr226
 					}
 				case (m.data)[(m.p)] >= 64:
-					goto tr232
+					goto tr226
 				}
 			default:
-				goto tr232
+				goto tr226
 			}
 			goto tr185
 		case 134:
@@ -2663,7 +2691,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr207
 			}
 			goto tr203
-		case 192:
+		case 193:
 			switch (m.data)[(m.p)] {
 			case 33:
 				goto tr243
@@ -2671,31 +2699,63 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr244
 			case 37:
 				goto tr245
+			case 47:
+				goto tr250
 			case 61:
 				goto tr243
 			case 63:
-				goto tr248
+				goto tr251
 			case 95:
 				goto tr243
 			case 126:
 				goto tr243
 			}
 			switch {
+			case (m.data)[(m.p)] < 64:
+				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
+					goto tr243
+				}
+			case (m.data)[(m.p)] > 90:
+				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
+					goto tr243
+				}
+			default:
+				goto tr243
+			}
+			goto tr203
+		case 194:
+			switch (m.data)[(m.p)] {
+			case 33:
+				goto tr238
+			case 35:
+				goto tr239
+			case 37:
+				goto tr240
+			case 61:
+				goto tr238
+			case 63:
+				goto tr252
+			case 95:
+				goto tr238
+			case 126:
+				goto tr238
+			}
+			switch {
 			case (m.data)[(m.p)] < 48:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 46 {
-					goto tr243
+					goto tr238
 				}
 			case (m.data)[(m.p)] > 59:
 				switch {
 				case (m.data)[(m.p)] > 90:
 					if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-						goto tr243
+						goto tr238
 					}
 				case (m.data)[(m.p)] >= 64:
-					goto tr243
+					goto tr238
 				}
 			default:
-				goto tr243
+				goto tr238
 			}
 			goto tr203
 		case 137:
@@ -3398,14 +3458,14 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				goto tr116
 			}
 			goto tr106
-		case 193:
+		case 195:
 			switch (m.data)[(m.p)] {
 			case 10:
 				goto tr183
 			case 13:
 				goto tr183
 			}
-			goto tr249
+			goto tr253
 		}
 
 	tr183:
@@ -3912,16 +3972,22 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr188:
 		m.cs = 133
 		goto f26
-	tr247:
+	tr249:
+		m.cs = 134
+		goto f42
+	tr248:
 		m.cs = 134
 		goto f45
 	tr184:
 		m.cs = 135
 		goto _again
+	tr252:
+		m.cs = 136
+		goto _again
 	tr206:
 		m.cs = 136
 		goto f31
-	tr248:
+	tr251:
 		m.cs = 136
 		goto f50
 	tr166:
@@ -4152,12 +4218,18 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr202:
 		m.cs = 191
 		goto _again
-	tr207:
+	tr247:
 		m.cs = 192
-		goto _again
-	tr249:
+		goto f44
+	tr207:
 		m.cs = 193
 		goto _again
+	tr250:
+		m.cs = 194
+		goto f50
+	tr253:
+		m.cs = 195
+		goto _again
 
 	f4:
 
@@ -4191,7 +4263,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errPrefix, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4200,7 +4272,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errIdentifier, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4209,7 +4281,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errSpecificString, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4219,7 +4291,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 195
 			goto _again
 
 		}
@@ -4230,7 +4302,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errSCIMNamespace, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4239,7 +4311,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errSCIMType, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4248,7 +4320,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errSCIMName, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4261,7 +4333,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		}
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4290,7 +4362,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141SpecificString, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4299,7 +4371,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141Identifier, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4319,7 +4391,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(err8141RComponentStart, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 195
 			goto _again
 
 		}
@@ -4332,7 +4404,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(err8141QComponentStart, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 195
 			goto _again
 
 		}
@@ -4344,7 +4416,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141MalformedRComp, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4353,7 +4425,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141MalformedQComp, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4369,7 +4441,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errNoUrnWithinID, pos)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			}
@@ -4388,13 +4460,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errIdentifier, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		m.err = fmt.Errorf(errPrefix, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4403,13 +4475,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errIdentifier, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		m.err = fmt.Errorf(errNoUrnWithinID, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4419,7 +4491,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 195
 			goto _again
 
 		}
@@ -4427,7 +4499,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(errSpecificString, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4437,7 +4509,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 195
 			goto _again
 
 		}
@@ -4449,7 +4521,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		}
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4459,7 +4531,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 195
 			goto _again
 
 		}
@@ -4467,7 +4539,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141SpecificString, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4477,7 +4549,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 195
 			goto _again
 
 		}
@@ -4485,7 +4557,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141MalformedRComp, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4495,7 +4567,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 195
 			goto _again
 
 		}
@@ -4503,7 +4575,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141MalformedQComp, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4512,13 +4584,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141Identifier, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		m.err = fmt.Errorf(errPrefix, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4528,7 +4600,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(err8141RComponentStart, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 195
 			goto _again
 
 		}
@@ -4543,7 +4615,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(err8141RComponentStart, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 195
 			goto _again
 
 		}
@@ -4558,7 +4630,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(err8141QComponentStart, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 195
 			goto _again
 
 		}
@@ -4573,7 +4645,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(err8141QComponentStart, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 195
 			goto _again
 
 		}
@@ -4587,13 +4659,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141MalformedRComp, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		m.err = fmt.Errorf(err8141MalformedQComp, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4603,7 +4675,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
-			m.cs = 193
+			m.cs = 195
 			goto _again
 
 		}
@@ -4611,13 +4683,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.err = fmt.Errorf(err8141MalformedRComp, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		m.err = fmt.Errorf(err8141MalformedQComp, m.p)
 		(m.p)--
 
-		m.cs = 193
+		m.cs = 195
 		goto _again
 
 		goto _again
@@ -4629,7 +4701,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			(m.p)--
 
 			m.err = fmt.Errorf(err8141InformalID, m.p)
-			m.cs = 193
+			m.cs = 195
 			goto _again
 		}
 
@@ -4649,7 +4721,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errPrefix, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 6:
@@ -4657,7 +4729,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errIdentifier, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 8:
@@ -4665,7 +4737,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errSpecificString, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 24:
@@ -4674,7 +4746,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 195
 					goto _again
 
 				}
@@ -4684,7 +4756,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errSCIMNamespace, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 14:
@@ -4692,7 +4764,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errSCIMType, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 16:
@@ -4700,7 +4772,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errSCIMName, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 18:
@@ -4712,7 +4784,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				}
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 23:
@@ -4720,7 +4792,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141SpecificString, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 22:
@@ -4728,7 +4800,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141Identifier, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 26:
@@ -4736,7 +4808,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141MalformedRComp, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 31:
@@ -4744,7 +4816,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141MalformedQComp, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 34:
@@ -4766,13 +4838,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errIdentifier, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 				m.err = fmt.Errorf(errPrefix, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 11:
@@ -4780,13 +4852,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errIdentifier, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 				m.err = fmt.Errorf(errNoUrnWithinID, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 9:
@@ -4795,7 +4867,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 195
 					goto _again
 
 				}
@@ -4803,7 +4875,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(errSpecificString, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 20:
@@ -4812,7 +4884,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 195
 					goto _again
 
 				}
@@ -4824,7 +4896,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				}
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 25:
@@ -4833,7 +4905,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 195
 					goto _again
 
 				}
@@ -4841,7 +4913,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141SpecificString, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 28:
@@ -4850,7 +4922,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 195
 					goto _again
 
 				}
@@ -4858,7 +4930,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141MalformedRComp, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 29:
@@ -4867,7 +4939,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 195
 					goto _again
 
 				}
@@ -4875,7 +4947,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141MalformedQComp, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 21:
@@ -4883,13 +4955,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141Identifier, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 				m.err = fmt.Errorf(errPrefix, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 42:
@@ -4924,7 +4996,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 195
 					goto _again
 
 				}
@@ -4932,13 +5004,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.err = fmt.Errorf(err8141MalformedRComp, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 				m.err = fmt.Errorf(err8141MalformedQComp, m.p)
 				(m.p)--
 
-				m.cs = 193
+				m.cs = 195
 				goto _again
 
 			case 35:
@@ -4965,7 +5037,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(err8141RComponentStart, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 195
 					goto _again
 
 				}
@@ -4981,7 +5053,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 					m.err = fmt.Errorf(err8141QComponentStart, m.p)
 					(m.p)--
 
-					m.cs = 193
+					m.cs = 195
 					goto _again
 
 				}
diff --git a/machine.go.rl b/machine.go.rl
index 3a3968d..47620c0 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -260,11 +260,11 @@ component = pchar (pchar | '/' | '?')*;
 
 r_start = ('?+') %mark_r_start;
 
-r_component = r_start <: (r_start | component)+ $err(err_malformed_r_component) >mark %set_r_component;
+r_component = r_start <: (r_start '/'? | component)+ $err(err_malformed_r_component) >mark %set_r_component;
 
 q_start = ('?=') %mark_q_start;
 
-q_component = q_start <: (q_start | component)+ $err(err_malformed_q_component) >mark %set_q_component;
+q_component = q_start <: (q_start '/'? | component)+ $err(err_malformed_q_component) >mark %set_q_component;
 
 rq_components = (r_component :>> q_component? | q_component);
 
-- 
2.43.0


From e3b0a7ecf85939ad2f9693e701c363dba395ab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 8/9] fix: keep the prefix when an RFC 8141 identifier starts
 with urn-

---
 machine.go    | 1872 ++++++++++++++++++++++++-------------------------
 machine.go.rl |    2 +-
 2 files changed, 921 insertions(+), 953 deletions(-)

diff --git a/machine.go b/machine.go
index 8ac3a80..7d30e70 100644
--- a/machine.go
+++ b/machine.go
@@ -48,7 +48,7 @@ var _toStateActions []byte = []byte{
 	0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 33, 0, 0, 0, 0,
+	0, 0, 0, 32, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0,
@@ -66,20 +66,20 @@ var _eofActions []byte = []byte{
 	12, 14, 14, 14, 14, 16, 18, 20,
 	20, 14, 14, 14, 14, 14, 14, 14,
 	14, 14, 14, 1, 1, 1, 1, 21,
-	22, 22, 22, 22, 22, 22, 22, 22,
-	22, 22, 22, 22, 22, 22, 22, 22,
-	22, 22, 22, 22, 22, 22, 22, 22,
-	22, 22, 22, 22, 22, 22, 22, 22,
-	23, 24, 24, 25, 25, 0, 26, 28,
-	28, 29, 29, 30, 30, 26, 26, 31,
-	31, 22, 22, 22, 22, 22, 22, 22,
-	22, 22, 22, 22, 22, 22, 22, 22,
-	22, 22, 22, 22, 22, 22, 22, 22,
-	22, 22, 22, 22, 22, 22, 22, 21,
-	21, 22, 22, 22, 34, 34, 35, 37,
-	37, 38, 40, 41, 41, 38, 42, 42,
-	42, 44, 42, 48, 48, 48, 50, 44,
-	42, 50, 48, 0,
+	21, 21, 21, 21, 21, 21, 21, 21,
+	21, 21, 21, 21, 21, 21, 21, 21,
+	21, 21, 21, 21, 21, 21, 21, 21,
+	21, 21, 21, 21, 21, 21, 21, 21,
+	22, 23, 23, 24, 24, 0, 25, 27,
+	27, 28, 28, 29, 29, 25, 25, 30,
+	30, 21, 21, 21, 21, 21, 21, 21,
+	21, 21, 21, 21, 21, 21, 21, 21,
+	21, 21, 21, 21, 21, 21, 21, 21,
+	21, 21, 21, 21, 21, 21, 21, 21,
+	21, 21, 21, 21, 33, 33, 34, 36,
+	36, 37, 39, 40, 40, 37, 41, 41,
+	41, 43, 41, 47, 47, 47, 49, 43,
+	41, 49, 47, 0,
 }
 
 const start int = 1
@@ -878,32 +878,32 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		case 172:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr212
+				goto tr211
 			case 36:
-				goto tr212
+				goto tr211
 			case 37:
-				goto tr213
-			case 61:
 				goto tr212
+			case 61:
+				goto tr211
 			case 95:
-				goto tr212
+				goto tr211
 			}
 			switch {
 			case (m.data)[(m.p)] < 48:
 				if 39 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 46 {
-					goto tr212
+					goto tr211
 				}
 			case (m.data)[(m.p)] > 59:
 				switch {
 				case (m.data)[(m.p)] > 90:
 					if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-						goto tr212
+						goto tr211
 					}
 				case (m.data)[(m.p)] >= 64:
-					goto tr212
+					goto tr211
 				}
 			default:
-				goto tr212
+				goto tr211
 			}
 			goto tr41
 		case 39:
@@ -937,32 +937,32 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		case 173:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr212
+				goto tr211
 			case 36:
-				goto tr212
+				goto tr211
 			case 37:
-				goto tr213
-			case 61:
 				goto tr212
+			case 61:
+				goto tr211
 			case 95:
-				goto tr212
+				goto tr211
 			}
 			switch {
 			case (m.data)[(m.p)] < 48:
 				if 39 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 46 {
-					goto tr212
+					goto tr211
 				}
 			case (m.data)[(m.p)] > 59:
 				switch {
 				case (m.data)[(m.p)] > 90:
 					if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-						goto tr212
+						goto tr211
 					}
 				case (m.data)[(m.p)] >= 64:
-					goto tr212
+					goto tr211
 				}
 			default:
-				goto tr212
+				goto tr211
 			}
 			goto tr44
 		case 41:
@@ -1185,19 +1185,19 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			goto tr81
 		case 174:
 			if (m.data)[(m.p)] == 58 {
-				goto tr215
+				goto tr214
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr214
+					goto tr213
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr214
+					goto tr213
 				}
 			default:
-				goto tr214
+				goto tr213
 			}
 			goto tr81
 		case 70:
@@ -1234,32 +1234,32 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		case 175:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr216
+				goto tr215
 			case 36:
-				goto tr216
+				goto tr215
 			case 37:
-				goto tr217
-			case 61:
 				goto tr216
+			case 61:
+				goto tr215
 			case 95:
-				goto tr216
+				goto tr215
 			}
 			switch {
 			case (m.data)[(m.p)] < 48:
 				if 39 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 46 {
-					goto tr216
+					goto tr215
 				}
 			case (m.data)[(m.p)] > 59:
 				switch {
 				case (m.data)[(m.p)] > 90:
 					if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-						goto tr216
+						goto tr215
 					}
 				case (m.data)[(m.p)] >= 64:
-					goto tr216
+					goto tr215
 				}
 			default:
-				goto tr216
+				goto tr215
 			}
 			goto tr83
 		case 71:
@@ -1293,32 +1293,32 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		case 176:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr216
+				goto tr215
 			case 36:
-				goto tr216
+				goto tr215
 			case 37:
-				goto tr217
-			case 61:
 				goto tr216
+			case 61:
+				goto tr215
 			case 95:
-				goto tr216
+				goto tr215
 			}
 			switch {
 			case (m.data)[(m.p)] < 48:
 				if 39 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 46 {
-					goto tr216
+					goto tr215
 				}
 			case (m.data)[(m.p)] > 59:
 				switch {
 				case (m.data)[(m.p)] > 90:
 					if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-						goto tr216
+						goto tr215
 					}
 				case (m.data)[(m.p)] >= 64:
-					goto tr216
+					goto tr215
 				}
 			default:
-				goto tr216
+				goto tr215
 			}
 			goto tr86
 		case 73:
@@ -1422,2053 +1422,2053 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			goto tr103
 		case 88:
 			if (m.data)[(m.p)] == 45 {
-				goto tr107
+				goto tr106
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr108
+					goto tr107
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr108
+					goto tr107
 				}
 			default:
-				goto tr108
+				goto tr107
 			}
-			goto tr106
+			goto tr103
 		case 89:
 			if (m.data)[(m.p)] == 45 {
-				goto tr109
+				goto tr108
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr110
+					goto tr109
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr110
+					goto tr109
 				}
 			default:
-				goto tr110
+				goto tr109
 			}
-			goto tr106
+			goto tr103
 		case 90:
 			if (m.data)[(m.p)] == 45 {
-				goto tr111
+				goto tr110
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr112
+					goto tr111
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr112
+					goto tr111
 				}
 			default:
-				goto tr112
+				goto tr111
 			}
-			goto tr106
+			goto tr103
 		case 91:
 			if (m.data)[(m.p)] == 45 {
-				goto tr113
+				goto tr112
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr114
+					goto tr113
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr114
+					goto tr113
 				}
 			default:
-				goto tr114
+				goto tr113
 			}
-			goto tr106
+			goto tr103
 		case 92:
 			if (m.data)[(m.p)] == 45 {
-				goto tr115
+				goto tr114
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr116
+					goto tr115
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr116
+					goto tr115
 				}
 			default:
-				goto tr116
+				goto tr115
 			}
-			goto tr106
+			goto tr103
 		case 93:
 			if (m.data)[(m.p)] == 45 {
-				goto tr117
+				goto tr116
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr118
+					goto tr117
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr118
+					goto tr117
 				}
 			default:
-				goto tr118
+				goto tr117
 			}
-			goto tr106
+			goto tr103
 		case 94:
 			if (m.data)[(m.p)] == 45 {
-				goto tr119
+				goto tr118
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr120
+					goto tr119
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr120
+					goto tr119
 				}
 			default:
-				goto tr120
+				goto tr119
 			}
-			goto tr106
+			goto tr103
 		case 95:
 			if (m.data)[(m.p)] == 45 {
-				goto tr121
+				goto tr120
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr122
+					goto tr121
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr122
+					goto tr121
 				}
 			default:
-				goto tr122
+				goto tr121
 			}
-			goto tr106
+			goto tr103
 		case 96:
 			if (m.data)[(m.p)] == 45 {
-				goto tr123
+				goto tr122
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr124
+					goto tr123
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr124
+					goto tr123
 				}
 			default:
-				goto tr124
+				goto tr123
 			}
-			goto tr106
+			goto tr103
 		case 97:
 			if (m.data)[(m.p)] == 45 {
-				goto tr125
+				goto tr124
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr126
+					goto tr125
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr126
+					goto tr125
 				}
 			default:
-				goto tr126
+				goto tr125
 			}
-			goto tr106
+			goto tr103
 		case 98:
 			if (m.data)[(m.p)] == 45 {
-				goto tr127
+				goto tr126
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr128
+					goto tr127
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr128
+					goto tr127
 				}
 			default:
-				goto tr128
+				goto tr127
 			}
-			goto tr106
+			goto tr103
 		case 99:
 			if (m.data)[(m.p)] == 45 {
-				goto tr129
+				goto tr128
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr130
+					goto tr129
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr130
+					goto tr129
 				}
 			default:
-				goto tr130
+				goto tr129
 			}
-			goto tr106
+			goto tr103
 		case 100:
 			if (m.data)[(m.p)] == 45 {
-				goto tr131
+				goto tr130
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr132
+					goto tr131
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr132
+					goto tr131
 				}
 			default:
-				goto tr132
+				goto tr131
 			}
-			goto tr106
+			goto tr103
 		case 101:
 			if (m.data)[(m.p)] == 45 {
-				goto tr133
+				goto tr132
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr134
+					goto tr133
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr134
+					goto tr133
 				}
 			default:
-				goto tr134
+				goto tr133
 			}
-			goto tr106
+			goto tr103
 		case 102:
 			if (m.data)[(m.p)] == 45 {
-				goto tr135
+				goto tr134
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr136
+					goto tr135
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr136
+					goto tr135
 				}
 			default:
-				goto tr136
+				goto tr135
 			}
-			goto tr106
+			goto tr103
 		case 103:
 			if (m.data)[(m.p)] == 45 {
-				goto tr137
+				goto tr136
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr138
+					goto tr137
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr138
+					goto tr137
 				}
 			default:
-				goto tr138
+				goto tr137
 			}
-			goto tr106
+			goto tr103
 		case 104:
 			if (m.data)[(m.p)] == 45 {
-				goto tr139
+				goto tr138
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr140
+					goto tr139
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr140
+					goto tr139
 				}
 			default:
-				goto tr140
+				goto tr139
 			}
-			goto tr106
+			goto tr103
 		case 105:
 			if (m.data)[(m.p)] == 45 {
-				goto tr141
+				goto tr140
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr142
+					goto tr141
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr142
+					goto tr141
 				}
 			default:
-				goto tr142
+				goto tr141
 			}
-			goto tr106
+			goto tr103
 		case 106:
 			if (m.data)[(m.p)] == 45 {
-				goto tr143
+				goto tr142
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr144
+					goto tr143
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr144
+					goto tr143
 				}
 			default:
-				goto tr144
+				goto tr143
 			}
-			goto tr106
+			goto tr103
 		case 107:
 			if (m.data)[(m.p)] == 45 {
-				goto tr145
+				goto tr144
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr146
+					goto tr145
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr146
+					goto tr145
 				}
 			default:
-				goto tr146
+				goto tr145
 			}
-			goto tr106
+			goto tr103
 		case 108:
 			if (m.data)[(m.p)] == 45 {
-				goto tr147
+				goto tr146
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr148
+					goto tr147
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr148
+					goto tr147
 				}
 			default:
-				goto tr148
+				goto tr147
 			}
-			goto tr106
+			goto tr103
 		case 109:
 			if (m.data)[(m.p)] == 45 {
-				goto tr149
+				goto tr148
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr150
+					goto tr149
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr150
+					goto tr149
 				}
 			default:
-				goto tr150
+				goto tr149
 			}
-			goto tr106
+			goto tr103
 		case 110:
 			if (m.data)[(m.p)] == 45 {
-				goto tr151
+				goto tr150
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr152
+					goto tr151
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr152
+					goto tr151
 				}
 			default:
-				goto tr152
+				goto tr151
 			}
-			goto tr106
+			goto tr103
 		case 111:
 			if (m.data)[(m.p)] == 45 {
-				goto tr153
+				goto tr152
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr154
+					goto tr153
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr154
+					goto tr153
 				}
 			default:
-				goto tr154
+				goto tr153
 			}
-			goto tr106
+			goto tr103
 		case 112:
 			if (m.data)[(m.p)] == 45 {
-				goto tr155
+				goto tr154
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr156
+					goto tr155
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr156
+					goto tr155
 				}
 			default:
-				goto tr156
+				goto tr155
 			}
-			goto tr106
+			goto tr103
 		case 113:
 			if (m.data)[(m.p)] == 45 {
-				goto tr157
+				goto tr156
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr158
+					goto tr157
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr158
+					goto tr157
 				}
 			default:
-				goto tr158
+				goto tr157
 			}
-			goto tr106
+			goto tr103
 		case 114:
 			if (m.data)[(m.p)] == 45 {
-				goto tr159
+				goto tr158
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr160
+					goto tr159
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr160
+					goto tr159
 				}
 			default:
-				goto tr160
+				goto tr159
 			}
-			goto tr106
+			goto tr103
 		case 115:
 			if (m.data)[(m.p)] == 45 {
-				goto tr161
+				goto tr160
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr162
+					goto tr161
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr162
+					goto tr161
 				}
 			default:
-				goto tr162
+				goto tr161
 			}
-			goto tr106
+			goto tr103
 		case 116:
 			if (m.data)[(m.p)] == 45 {
-				goto tr163
+				goto tr162
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr164
+					goto tr163
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr164
+					goto tr163
 				}
 			default:
-				goto tr164
+				goto tr163
 			}
-			goto tr106
+			goto tr103
 		case 117:
 			if (m.data)[(m.p)] == 45 {
-				goto tr165
+				goto tr164
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr166
+					goto tr165
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr166
+					goto tr165
 				}
 			default:
-				goto tr166
+				goto tr165
 			}
-			goto tr106
+			goto tr103
 		case 118:
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr167
+					goto tr166
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr167
+					goto tr166
 				}
 			default:
-				goto tr167
+				goto tr166
 			}
-			goto tr106
+			goto tr103
 		case 119:
 			if (m.data)[(m.p)] == 58 {
-				goto tr168
+				goto tr167
 			}
-			goto tr106
+			goto tr103
 		case 120:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr170
+				goto tr169
 			case 37:
-				goto tr171
-			case 61:
 				goto tr170
+			case 61:
+				goto tr169
 			case 95:
-				goto tr170
+				goto tr169
 			case 126:
-				goto tr170
+				goto tr169
 			}
 			switch {
 			case (m.data)[(m.p)] < 48:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 46 {
-					goto tr170
+					goto tr169
 				}
 			case (m.data)[(m.p)] > 59:
 				switch {
 				case (m.data)[(m.p)] > 90:
 					if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-						goto tr170
+						goto tr169
 					}
 				case (m.data)[(m.p)] >= 64:
-					goto tr170
+					goto tr169
 				}
 			default:
-				goto tr170
+				goto tr169
 			}
-			goto tr169
+			goto tr168
 		case 177:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr218
+				goto tr217
 			case 35:
-				goto tr219
+				goto tr218
 			case 37:
-				goto tr220
+				goto tr219
 			case 61:
-				goto tr218
+				goto tr217
 			case 63:
-				goto tr221
+				goto tr220
 			case 95:
-				goto tr218
+				goto tr217
 			case 126:
-				goto tr218
+				goto tr217
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr218
+					goto tr217
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr218
+					goto tr217
 				}
 			default:
-				goto tr218
+				goto tr217
 			}
-			goto tr169
+			goto tr168
 		case 178:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr222
+				goto tr221
 			case 37:
-				goto tr223
-			case 61:
 				goto tr222
+			case 61:
+				goto tr221
 			case 95:
-				goto tr222
+				goto tr221
 			case 126:
-				goto tr222
+				goto tr221
 			}
 			switch {
 			case (m.data)[(m.p)] < 63:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr222
+					goto tr221
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr222
+					goto tr221
 				}
 			default:
-				goto tr222
+				goto tr221
 			}
-			goto tr183
+			goto tr182
 		case 179:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr224
+				goto tr223
 			case 37:
-				goto tr225
-			case 61:
 				goto tr224
+			case 61:
+				goto tr223
 			case 95:
-				goto tr224
+				goto tr223
 			case 126:
-				goto tr224
+				goto tr223
 			}
 			switch {
 			case (m.data)[(m.p)] < 63:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr224
+					goto tr223
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr224
+					goto tr223
 				}
 			default:
-				goto tr224
+				goto tr223
 			}
-			goto tr183
+			goto tr182
 		case 121:
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr173
+					goto tr172
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr173
+					goto tr172
 				}
 			default:
-				goto tr174
+				goto tr173
 			}
-			goto tr172
+			goto tr171
 		case 122:
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr175
+					goto tr174
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr175
+					goto tr174
 				}
 			default:
-				goto tr176
+				goto tr175
 			}
-			goto tr172
+			goto tr171
 		case 180:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr224
+				goto tr223
 			case 37:
-				goto tr225
-			case 61:
 				goto tr224
+			case 61:
+				goto tr223
 			case 95:
-				goto tr224
+				goto tr223
 			case 126:
-				goto tr224
+				goto tr223
 			}
 			switch {
 			case (m.data)[(m.p)] < 63:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr224
+					goto tr223
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr224
+					goto tr223
 				}
 			default:
-				goto tr224
+				goto tr223
 			}
-			goto tr172
+			goto tr171
 		case 123:
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr178
+					goto tr177
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr178
+					goto tr177
 				}
 			default:
-				goto tr179
+				goto tr178
 			}
-			goto tr177
+			goto tr176
 		case 124:
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr180
+					goto tr179
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr180
+					goto tr179
 				}
 			default:
-				goto tr181
+				goto tr180
 			}
-			goto tr177
+			goto tr176
 		case 181:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr218
+				goto tr217
 			case 35:
-				goto tr219
+				goto tr218
 			case 37:
-				goto tr220
+				goto tr219
 			case 61:
-				goto tr218
+				goto tr217
 			case 63:
-				goto tr221
+				goto tr220
 			case 95:
-				goto tr218
+				goto tr217
 			case 126:
-				goto tr218
+				goto tr217
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr218
+					goto tr217
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr218
+					goto tr217
 				}
 			default:
-				goto tr218
+				goto tr217
 			}
-			goto tr177
+			goto tr176
 		case 125:
 			switch (m.data)[(m.p)] {
 			case 43:
-				goto tr182
+				goto tr181
 			case 61:
-				goto tr184
+				goto tr183
 			}
-			goto tr183
+			goto tr182
 		case 126:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr186
+				goto tr185
 			case 37:
-				goto tr187
-			case 61:
 				goto tr186
+			case 61:
+				goto tr185
 			case 63:
-				goto tr188
+				goto tr187
 			case 95:
-				goto tr186
+				goto tr185
 			case 126:
-				goto tr186
+				goto tr185
 			}
 			switch {
 			case (m.data)[(m.p)] < 48:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 46 {
-					goto tr186
+					goto tr185
 				}
 			case (m.data)[(m.p)] > 59:
 				switch {
 				case (m.data)[(m.p)] > 90:
 					if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-						goto tr186
+						goto tr185
 					}
 				case (m.data)[(m.p)] >= 64:
-					goto tr186
+					goto tr185
 				}
 			default:
-				goto tr186
+				goto tr185
 			}
-			goto tr185
+			goto tr184
 		case 182:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr226
+				goto tr225
 			case 35:
-				goto tr227
+				goto tr226
 			case 37:
-				goto tr228
+				goto tr227
 			case 61:
-				goto tr226
+				goto tr225
 			case 63:
-				goto tr229
+				goto tr228
 			case 95:
-				goto tr226
+				goto tr225
 			case 126:
-				goto tr226
+				goto tr225
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr226
+					goto tr225
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr226
+					goto tr225
 				}
 			default:
-				goto tr226
+				goto tr225
 			}
-			goto tr185
+			goto tr184
 		case 127:
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr190
+					goto tr189
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr190
+					goto tr189
 				}
 			default:
-				goto tr191
+				goto tr190
 			}
-			goto tr189
+			goto tr188
 		case 128:
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr192
+					goto tr191
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr192
+					goto tr191
 				}
 			default:
-				goto tr193
+				goto tr192
 			}
-			goto tr189
+			goto tr188
 		case 183:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr226
+				goto tr225
 			case 35:
-				goto tr227
+				goto tr226
 			case 37:
-				goto tr228
+				goto tr227
 			case 61:
-				goto tr226
+				goto tr225
 			case 63:
-				goto tr229
+				goto tr228
 			case 95:
-				goto tr226
+				goto tr225
 			case 126:
-				goto tr226
+				goto tr225
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr226
+					goto tr225
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr226
+					goto tr225
 				}
 			default:
-				goto tr226
+				goto tr225
 			}
-			goto tr189
+			goto tr188
 		case 184:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr226
+				goto tr225
 			case 35:
-				goto tr227
+				goto tr226
 			case 37:
-				goto tr228
+				goto tr227
 			case 43:
-				goto tr230
+				goto tr229
 			case 61:
-				goto tr231
+				goto tr230
 			case 63:
-				goto tr229
+				goto tr228
 			case 95:
-				goto tr226
+				goto tr225
 			case 126:
-				goto tr226
+				goto tr225
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr226
+					goto tr225
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr226
+					goto tr225
 				}
 			default:
-				goto tr226
+				goto tr225
 			}
-			goto tr185
+			goto tr184
 		case 185:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr232
+				goto tr231
 			case 35:
-				goto tr233
+				goto tr232
 			case 37:
-				goto tr234
+				goto tr233
 			case 61:
-				goto tr232
+				goto tr231
 			case 63:
-				goto tr235
+				goto tr234
 			case 95:
-				goto tr232
+				goto tr231
 			case 126:
-				goto tr232
+				goto tr231
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr232
+					goto tr231
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr232
+					goto tr231
 				}
 			default:
-				goto tr232
+				goto tr231
 			}
-			goto tr185
+			goto tr184
 		case 186:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr204
+				goto tr203
 			case 35:
-				goto tr227
+				goto tr226
 			case 37:
-				goto tr237
+				goto tr236
 			case 47:
-				goto tr226
+				goto tr225
 			case 61:
-				goto tr204
+				goto tr203
 			case 63:
-				goto tr229
+				goto tr228
 			case 95:
-				goto tr204
+				goto tr203
 			case 126:
-				goto tr204
+				goto tr203
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr204
+					goto tr203
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr204
+					goto tr203
 				}
 			default:
-				goto tr204
+				goto tr203
 			}
-			goto tr236
+			goto tr235
 		case 187:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr238
+				goto tr237
 			case 35:
-				goto tr239
+				goto tr238
 			case 37:
-				goto tr240
+				goto tr239
 			case 61:
-				goto tr238
+				goto tr237
 			case 63:
-				goto tr241
+				goto tr240
 			case 95:
-				goto tr238
+				goto tr237
 			case 126:
-				goto tr238
+				goto tr237
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr238
+					goto tr237
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr238
+					goto tr237
 				}
 			default:
-				goto tr238
+				goto tr237
 			}
-			goto tr203
+			goto tr202
 		case 129:
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr195
+					goto tr194
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr195
+					goto tr194
 				}
 			default:
-				goto tr196
+				goto tr195
 			}
-			goto tr194
+			goto tr193
 		case 130:
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr197
+					goto tr196
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr197
+					goto tr196
 				}
 			default:
-				goto tr198
+				goto tr197
 			}
-			goto tr194
+			goto tr193
 		case 188:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr238
+				goto tr237
 			case 35:
-				goto tr239
+				goto tr238
 			case 37:
-				goto tr240
+				goto tr239
 			case 61:
-				goto tr238
+				goto tr237
 			case 63:
-				goto tr241
+				goto tr240
 			case 95:
-				goto tr238
+				goto tr237
 			case 126:
-				goto tr238
+				goto tr237
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr238
+					goto tr237
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr238
+					goto tr237
 				}
 			default:
-				goto tr238
+				goto tr237
 			}
-			goto tr194
+			goto tr193
 		case 189:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr238
+				goto tr237
 			case 35:
-				goto tr239
+				goto tr238
 			case 37:
-				goto tr240
+				goto tr239
 			case 61:
-				goto tr242
-			case 63:
 				goto tr241
+			case 63:
+				goto tr240
 			case 95:
-				goto tr238
+				goto tr237
 			case 126:
-				goto tr238
+				goto tr237
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr238
+					goto tr237
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr238
+					goto tr237
 				}
 			default:
-				goto tr238
+				goto tr237
 			}
-			goto tr203
+			goto tr202
 		case 190:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr243
+				goto tr242
 			case 35:
-				goto tr244
+				goto tr243
 			case 37:
-				goto tr245
+				goto tr244
 			case 61:
-				goto tr243
+				goto tr242
 			case 63:
-				goto tr246
+				goto tr245
 			case 95:
-				goto tr243
+				goto tr242
 			case 126:
-				goto tr243
+				goto tr242
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr243
+					goto tr242
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr243
+					goto tr242
 				}
 			default:
-				goto tr243
+				goto tr242
 			}
-			goto tr203
+			goto tr202
 		case 131:
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr200
+					goto tr199
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr200
+					goto tr199
 				}
 			default:
-				goto tr201
+				goto tr200
 			}
-			goto tr199
+			goto tr198
 		case 132:
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr197
+					goto tr196
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr197
+					goto tr196
 				}
 			default:
-				goto tr198
+				goto tr197
 			}
-			goto tr199
+			goto tr198
 		case 133:
 			if (m.data)[(m.p)] == 43 {
-				goto tr202
+				goto tr201
 			}
-			goto tr185
+			goto tr184
 		case 191:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr232
+				goto tr231
 			case 35:
-				goto tr233
+				goto tr232
 			case 37:
-				goto tr234
+				goto tr233
 			case 47:
-				goto tr247
+				goto tr246
 			case 61:
-				goto tr232
+				goto tr231
 			case 63:
-				goto tr248
+				goto tr247
 			case 95:
-				goto tr232
+				goto tr231
 			case 126:
-				goto tr232
+				goto tr231
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr232
+					goto tr231
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr232
+					goto tr231
 				}
 			default:
-				goto tr232
+				goto tr231
 			}
-			goto tr185
+			goto tr184
 		case 192:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr226
+				goto tr225
 			case 35:
-				goto tr227
+				goto tr226
 			case 37:
-				goto tr228
+				goto tr227
 			case 61:
-				goto tr226
+				goto tr225
 			case 63:
-				goto tr249
+				goto tr248
 			case 95:
-				goto tr226
+				goto tr225
 			case 126:
-				goto tr226
+				goto tr225
 			}
 			switch {
 			case (m.data)[(m.p)] < 48:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 46 {
-					goto tr226
+					goto tr225
 				}
 			case (m.data)[(m.p)] > 59:
 				switch {
 				case (m.data)[(m.p)] > 90:
 					if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-						goto tr226
+						goto tr225
 					}
 				case (m.data)[(m.p)] >= 64:
-					goto tr226
+					goto tr225
 				}
 			default:
-				goto tr226
+				goto tr225
 			}
-			goto tr185
+			goto tr184
 		case 134:
 			switch (m.data)[(m.p)] {
 			case 43:
-				goto tr202
+				goto tr201
 			case 61:
-				goto tr184
+				goto tr183
 			}
-			goto tr185
+			goto tr184
 		case 135:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr204
+				goto tr203
 			case 37:
-				goto tr205
-			case 61:
 				goto tr204
+			case 61:
+				goto tr203
 			case 63:
-				goto tr206
+				goto tr205
 			case 95:
-				goto tr204
+				goto tr203
 			case 126:
-				goto tr204
+				goto tr203
 			}
 			switch {
 			case (m.data)[(m.p)] < 48:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 46 {
-					goto tr204
+					goto tr203
 				}
 			case (m.data)[(m.p)] > 59:
 				switch {
 				case (m.data)[(m.p)] > 90:
 					if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-						goto tr204
+						goto tr203
 					}
 				case (m.data)[(m.p)] >= 64:
-					goto tr204
+					goto tr203
 				}
 			default:
-				goto tr204
+				goto tr203
 			}
-			goto tr203
+			goto tr202
 		case 136:
 			if (m.data)[(m.p)] == 61 {
-				goto tr207
+				goto tr206
 			}
-			goto tr203
+			goto tr202
 		case 193:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr243
+				goto tr242
 			case 35:
-				goto tr244
+				goto tr243
 			case 37:
-				goto tr245
+				goto tr244
 			case 47:
-				goto tr250
+				goto tr249
 			case 61:
-				goto tr243
+				goto tr242
 			case 63:
-				goto tr251
+				goto tr250
 			case 95:
-				goto tr243
+				goto tr242
 			case 126:
-				goto tr243
+				goto tr242
 			}
 			switch {
 			case (m.data)[(m.p)] < 64:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 59 {
-					goto tr243
+					goto tr242
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr243
+					goto tr242
 				}
 			default:
-				goto tr243
+				goto tr242
 			}
-			goto tr203
+			goto tr202
 		case 194:
 			switch (m.data)[(m.p)] {
 			case 33:
-				goto tr238
+				goto tr237
 			case 35:
-				goto tr239
+				goto tr238
 			case 37:
-				goto tr240
+				goto tr239
 			case 61:
-				goto tr238
+				goto tr237
 			case 63:
-				goto tr252
+				goto tr251
 			case 95:
-				goto tr238
+				goto tr237
 			case 126:
-				goto tr238
+				goto tr237
 			}
 			switch {
 			case (m.data)[(m.p)] < 48:
 				if 36 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 46 {
-					goto tr238
+					goto tr237
 				}
 			case (m.data)[(m.p)] > 59:
 				switch {
 				case (m.data)[(m.p)] > 90:
 					if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-						goto tr238
+						goto tr237
 					}
 				case (m.data)[(m.p)] >= 64:
-					goto tr238
+					goto tr237
 				}
 			default:
-				goto tr238
+				goto tr237
 			}
-			goto tr203
+			goto tr202
 		case 137:
 			if (m.data)[(m.p)] == 58 {
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr167
+					goto tr166
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr167
+					goto tr166
 				}
 			default:
-				goto tr167
+				goto tr166
 			}
-			goto tr106
+			goto tr103
 		case 138:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr165
+				goto tr164
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr166
+					goto tr165
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr166
+					goto tr165
 				}
 			default:
-				goto tr166
+				goto tr165
 			}
-			goto tr106
+			goto tr103
 		case 139:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr163
+				goto tr162
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr164
+					goto tr163
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr164
+					goto tr163
 				}
 			default:
-				goto tr164
+				goto tr163
 			}
-			goto tr106
+			goto tr103
 		case 140:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr161
+				goto tr160
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr162
+					goto tr161
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr162
+					goto tr161
 				}
 			default:
-				goto tr162
+				goto tr161
 			}
-			goto tr106
+			goto tr103
 		case 141:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr159
+				goto tr158
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr160
+					goto tr159
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr160
+					goto tr159
 				}
 			default:
-				goto tr160
+				goto tr159
 			}
-			goto tr106
+			goto tr103
 		case 142:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr157
+				goto tr156
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr158
+					goto tr157
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr158
+					goto tr157
 				}
 			default:
-				goto tr158
+				goto tr157
 			}
-			goto tr106
+			goto tr103
 		case 143:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr155
+				goto tr154
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr156
+					goto tr155
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr156
+					goto tr155
 				}
 			default:
-				goto tr156
+				goto tr155
 			}
-			goto tr106
+			goto tr103
 		case 144:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr153
+				goto tr152
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr154
+					goto tr153
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr154
+					goto tr153
 				}
 			default:
-				goto tr154
+				goto tr153
 			}
-			goto tr106
+			goto tr103
 		case 145:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr151
+				goto tr150
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr152
+					goto tr151
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr152
+					goto tr151
 				}
 			default:
-				goto tr152
+				goto tr151
 			}
-			goto tr106
+			goto tr103
 		case 146:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr149
+				goto tr148
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr150
+					goto tr149
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr150
+					goto tr149
 				}
 			default:
-				goto tr150
+				goto tr149
 			}
-			goto tr106
+			goto tr103
 		case 147:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr147
+				goto tr146
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr148
+					goto tr147
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr148
+					goto tr147
 				}
 			default:
-				goto tr148
+				goto tr147
 			}
-			goto tr106
+			goto tr103
 		case 148:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr145
+				goto tr144
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr146
+					goto tr145
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr146
+					goto tr145
 				}
 			default:
-				goto tr146
+				goto tr145
 			}
-			goto tr106
+			goto tr103
 		case 149:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr143
+				goto tr142
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr144
+					goto tr143
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr144
+					goto tr143
 				}
 			default:
-				goto tr144
+				goto tr143
 			}
-			goto tr106
+			goto tr103
 		case 150:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr141
+				goto tr140
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr142
+					goto tr141
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr142
+					goto tr141
 				}
 			default:
-				goto tr142
+				goto tr141
 			}
-			goto tr106
+			goto tr103
 		case 151:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr139
+				goto tr138
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr140
+					goto tr139
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr140
+					goto tr139
 				}
 			default:
-				goto tr140
+				goto tr139
 			}
-			goto tr106
+			goto tr103
 		case 152:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr137
+				goto tr136
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr138
+					goto tr137
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr138
+					goto tr137
 				}
 			default:
-				goto tr138
+				goto tr137
 			}
-			goto tr106
+			goto tr103
 		case 153:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr135
+				goto tr134
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr136
+					goto tr135
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr136
+					goto tr135
 				}
 			default:
-				goto tr136
+				goto tr135
 			}
-			goto tr106
+			goto tr103
 		case 154:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr133
+				goto tr132
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr134
+					goto tr133
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr134
+					goto tr133
 				}
 			default:
-				goto tr134
+				goto tr133
 			}
-			goto tr106
+			goto tr103
 		case 155:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr131
+				goto tr130
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr132
+					goto tr131
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr132
+					goto tr131
 				}
 			default:
-				goto tr132
+				goto tr131
 			}
-			goto tr106
+			goto tr103
 		case 156:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr129
+				goto tr128
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr130
+					goto tr129
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr130
+					goto tr129
 				}
 			default:
-				goto tr130
+				goto tr129
 			}
-			goto tr106
+			goto tr103
 		case 157:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr127
+				goto tr126
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr128
+					goto tr127
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr128
+					goto tr127
 				}
 			default:
-				goto tr128
+				goto tr127
 			}
-			goto tr106
+			goto tr103
 		case 158:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr125
+				goto tr124
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr126
+					goto tr125
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr126
+					goto tr125
 				}
 			default:
-				goto tr126
+				goto tr125
 			}
-			goto tr106
+			goto tr103
 		case 159:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr123
+				goto tr122
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr124
+					goto tr123
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr124
+					goto tr123
 				}
 			default:
-				goto tr124
+				goto tr123
 			}
-			goto tr106
+			goto tr103
 		case 160:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr121
+				goto tr120
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr122
+					goto tr121
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr122
+					goto tr121
 				}
 			default:
-				goto tr122
+				goto tr121
 			}
-			goto tr106
+			goto tr103
 		case 161:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr119
+				goto tr118
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr120
+					goto tr119
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr120
+					goto tr119
 				}
 			default:
-				goto tr120
+				goto tr119
 			}
-			goto tr106
+			goto tr103
 		case 162:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr117
+				goto tr116
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr118
+					goto tr117
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr118
+					goto tr117
 				}
 			default:
-				goto tr118
+				goto tr117
 			}
-			goto tr106
+			goto tr103
 		case 163:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr115
+				goto tr114
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr116
+					goto tr115
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr116
+					goto tr115
 				}
 			default:
-				goto tr116
+				goto tr115
 			}
-			goto tr106
+			goto tr103
 		case 164:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr113
+				goto tr112
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr114
+					goto tr113
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr114
+					goto tr113
 				}
 			default:
-				goto tr114
+				goto tr113
 			}
-			goto tr106
+			goto tr103
 		case 165:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr111
+				goto tr110
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr112
+					goto tr111
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr112
+					goto tr111
 				}
 			default:
-				goto tr112
+				goto tr111
 			}
-			goto tr106
+			goto tr103
 		case 166:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr109
+				goto tr108
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr110
+					goto tr109
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr110
+					goto tr109
 				}
 			default:
-				goto tr110
+				goto tr109
 			}
-			goto tr106
+			goto tr103
 		case 167:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr107
+				goto tr106
 			case 82:
-				goto tr208
+				goto tr207
 			case 114:
-				goto tr208
+				goto tr207
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr108
+					goto tr107
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr108
+					goto tr107
 				}
 			default:
-				goto tr108
+				goto tr107
 			}
 			goto tr103
 		case 168:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr109
+				goto tr108
 			case 58:
-				goto tr168
+				goto tr167
 			case 78:
-				goto tr209
+				goto tr208
 			case 110:
-				goto tr209
+				goto tr208
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr110
+					goto tr109
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr110
+					goto tr109
 				}
 			default:
-				goto tr110
+				goto tr109
 			}
 			goto tr103
 		case 169:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr210
+				goto tr209
 			case 58:
-				goto tr168
+				goto tr167
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr112
+					goto tr111
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr112
+					goto tr111
 				}
 			default:
-				goto tr112
+				goto tr111
 			}
-			goto tr106
+			goto tr103
 		case 170:
 			switch (m.data)[(m.p)] {
 			case 45:
-				goto tr113
+				goto tr112
 			case 48:
-				goto tr211
+				goto tr210
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 49 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr114
+					goto tr113
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr211
+					goto tr210
 				}
 			default:
-				goto tr211
+				goto tr210
 			}
-			goto tr106
+			goto tr103
 		case 171:
 			if (m.data)[(m.p)] == 45 {
-				goto tr115
+				goto tr114
 			}
 			switch {
 			case (m.data)[(m.p)] < 65:
 				if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-					goto tr116
+					goto tr115
 				}
 			case (m.data)[(m.p)] > 90:
 				if 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {
-					goto tr116
+					goto tr115
 				}
 			default:
-				goto tr116
+				goto tr115
 			}
-			goto tr106
+			goto tr103
 		case 195:
 			switch (m.data)[(m.p)] {
 			case 10:
-				goto tr183
+				goto tr182
 			case 13:
-				goto tr183
+				goto tr182
 			}
-			goto tr253
+			goto tr252
 		}
 
-	tr183:
+	tr182:
 		m.cs = 0
 		goto _again
 	tr0:
@@ -3507,36 +3507,33 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr103:
 		m.cs = 0
 		goto f20
-	tr106:
+	tr168:
 		m.cs = 0
 		goto f21
-	tr169:
+	tr171:
 		m.cs = 0
 		goto f22
-	tr172:
+	tr176:
 		m.cs = 0
 		goto f23
-	tr177:
+	tr184:
 		m.cs = 0
 		goto f24
-	tr185:
+	tr188:
 		m.cs = 0
-		goto f25
-	tr189:
+		goto f26
+	tr193:
 		m.cs = 0
 		goto f27
-	tr194:
+	tr198:
 		m.cs = 0
 		goto f28
-	tr199:
+	tr202:
 		m.cs = 0
 		goto f29
-	tr203:
-		m.cs = 0
-		goto f30
-	tr236:
+	tr235:
 		m.cs = 0
-		goto f46
+		goto f45
 	tr1:
 		m.cs = 2
 		goto f1
@@ -3648,7 +3645,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr10:
 		m.cs = 38
 		goto f6
-	tr213:
+	tr212:
 		m.cs = 39
 		goto _again
 	tr43:
@@ -3744,10 +3741,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr80:
 		m.cs = 69
 		goto f14
-	tr215:
+	tr214:
 		m.cs = 70
-		goto f35
-	tr217:
+		goto f34
+	tr216:
 		m.cs = 71
 		goto _again
 	tr85:
@@ -3804,298 +3801,298 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr104:
 		m.cs = 88
 		goto f4
-	tr107:
+	tr106:
 		m.cs = 89
 		goto _again
-	tr109:
+	tr108:
 		m.cs = 90
 		goto _again
-	tr111:
+	tr110:
 		m.cs = 91
 		goto _again
-	tr113:
+	tr112:
 		m.cs = 92
 		goto _again
-	tr115:
+	tr114:
 		m.cs = 93
 		goto _again
-	tr117:
+	tr116:
 		m.cs = 94
 		goto _again
-	tr119:
+	tr118:
 		m.cs = 95
 		goto _again
-	tr121:
+	tr120:
 		m.cs = 96
 		goto _again
-	tr123:
+	tr122:
 		m.cs = 97
 		goto _again
-	tr125:
+	tr124:
 		m.cs = 98
 		goto _again
-	tr127:
+	tr126:
 		m.cs = 99
 		goto _again
-	tr129:
+	tr128:
 		m.cs = 100
 		goto _again
-	tr131:
+	tr130:
 		m.cs = 101
 		goto _again
-	tr133:
+	tr132:
 		m.cs = 102
 		goto _again
-	tr135:
+	tr134:
 		m.cs = 103
 		goto _again
-	tr137:
+	tr136:
 		m.cs = 104
 		goto _again
-	tr139:
+	tr138:
 		m.cs = 105
 		goto _again
-	tr141:
+	tr140:
 		m.cs = 106
 		goto _again
-	tr143:
+	tr142:
 		m.cs = 107
 		goto _again
-	tr145:
+	tr144:
 		m.cs = 108
 		goto _again
-	tr147:
+	tr146:
 		m.cs = 109
 		goto _again
-	tr149:
+	tr148:
 		m.cs = 110
 		goto _again
-	tr151:
+	tr150:
 		m.cs = 111
 		goto _again
-	tr153:
+	tr152:
 		m.cs = 112
 		goto _again
-	tr155:
+	tr154:
 		m.cs = 113
 		goto _again
-	tr157:
+	tr156:
 		m.cs = 114
 		goto _again
-	tr159:
+	tr158:
 		m.cs = 115
 		goto _again
-	tr161:
+	tr160:
 		m.cs = 116
 		goto _again
-	tr163:
+	tr162:
 		m.cs = 117
 		goto _again
-	tr165:
+	tr164:
 		m.cs = 118
 		goto _again
-	tr167:
+	tr166:
 		m.cs = 119
 		goto _again
-	tr168:
+	tr167:
 		m.cs = 120
 		goto f6
-	tr225:
+	tr224:
 		m.cs = 121
 		goto _again
-	tr223:
+	tr222:
 		m.cs = 121
 		goto f4
-	tr173:
+	tr172:
 		m.cs = 122
 		goto _again
-	tr174:
+	tr173:
 		m.cs = 122
 		goto f9
-	tr220:
+	tr219:
 		m.cs = 123
 		goto _again
-	tr171:
+	tr170:
 		m.cs = 123
 		goto f4
-	tr178:
+	tr177:
 		m.cs = 124
 		goto _again
-	tr179:
+	tr178:
 		m.cs = 124
 		goto f9
-	tr221:
+	tr220:
 		m.cs = 125
-		goto f38
-	tr182:
+		goto f37
+	tr181:
 		m.cs = 126
 		goto _again
-	tr228:
+	tr227:
 		m.cs = 127
 		goto _again
-	tr187:
+	tr186:
 		m.cs = 127
-		goto f26
-	tr234:
+		goto f25
+	tr233:
 		m.cs = 127
-		goto f44
-	tr190:
+		goto f43
+	tr189:
 		m.cs = 128
 		goto _again
-	tr191:
+	tr190:
 		m.cs = 128
 		goto f9
-	tr240:
+	tr239:
 		m.cs = 129
 		goto _again
-	tr205:
+	tr204:
 		m.cs = 129
-		goto f31
-	tr245:
+		goto f30
+	tr244:
 		m.cs = 129
-		goto f50
-	tr195:
+		goto f49
+	tr194:
 		m.cs = 130
 		goto _again
-	tr196:
+	tr195:
 		m.cs = 130
 		goto f9
-	tr237:
+	tr236:
 		m.cs = 131
-		goto f31
-	tr200:
+		goto f30
+	tr199:
 		m.cs = 132
 		goto _again
-	tr201:
+	tr200:
 		m.cs = 132
 		goto f9
-	tr188:
+	tr187:
 		m.cs = 133
-		goto f26
-	tr249:
-		m.cs = 134
-		goto f42
+		goto f25
 	tr248:
 		m.cs = 134
-		goto f45
-	tr184:
+		goto f41
+	tr247:
+		m.cs = 134
+		goto f44
+	tr183:
 		m.cs = 135
 		goto _again
-	tr252:
+	tr251:
 		m.cs = 136
 		goto _again
-	tr206:
+	tr205:
 		m.cs = 136
-		goto f31
-	tr251:
+		goto f30
+	tr250:
 		m.cs = 136
-		goto f50
-	tr166:
+		goto f49
+	tr165:
 		m.cs = 137
 		goto _again
-	tr164:
+	tr163:
 		m.cs = 138
 		goto _again
-	tr162:
+	tr161:
 		m.cs = 139
 		goto _again
-	tr160:
+	tr159:
 		m.cs = 140
 		goto _again
-	tr158:
+	tr157:
 		m.cs = 141
 		goto _again
-	tr156:
+	tr155:
 		m.cs = 142
 		goto _again
-	tr154:
+	tr153:
 		m.cs = 143
 		goto _again
-	tr152:
+	tr151:
 		m.cs = 144
 		goto _again
-	tr150:
+	tr149:
 		m.cs = 145
 		goto _again
-	tr148:
+	tr147:
 		m.cs = 146
 		goto _again
-	tr146:
+	tr145:
 		m.cs = 147
 		goto _again
-	tr144:
+	tr143:
 		m.cs = 148
 		goto _again
-	tr142:
+	tr141:
 		m.cs = 149
 		goto _again
-	tr140:
+	tr139:
 		m.cs = 150
 		goto _again
-	tr138:
+	tr137:
 		m.cs = 151
 		goto _again
-	tr136:
+	tr135:
 		m.cs = 152
 		goto _again
-	tr134:
+	tr133:
 		m.cs = 153
 		goto _again
-	tr132:
+	tr131:
 		m.cs = 154
 		goto _again
-	tr130:
+	tr129:
 		m.cs = 155
 		goto _again
-	tr128:
+	tr127:
 		m.cs = 156
 		goto _again
-	tr126:
+	tr125:
 		m.cs = 157
 		goto _again
-	tr124:
+	tr123:
 		m.cs = 158
 		goto _again
-	tr122:
+	tr121:
 		m.cs = 159
 		goto _again
-	tr120:
+	tr119:
 		m.cs = 160
 		goto _again
-	tr118:
+	tr117:
 		m.cs = 161
 		goto _again
-	tr116:
+	tr115:
 		m.cs = 162
 		goto _again
-	tr114:
+	tr113:
 		m.cs = 163
 		goto _again
-	tr112:
+	tr111:
 		m.cs = 164
 		goto _again
-	tr110:
+	tr109:
 		m.cs = 165
 		goto _again
-	tr108:
+	tr107:
 		m.cs = 166
 		goto _again
 	tr105:
 		m.cs = 167
-		goto f1
-	tr208:
+		goto f4
+	tr207:
 		m.cs = 168
 		goto _again
-	tr209:
+	tr208:
 		m.cs = 169
 		goto _again
-	tr210:
+	tr209:
 		m.cs = 170
-		goto f2
-	tr211:
+		goto _again
+	tr210:
 		m.cs = 171
 		goto _again
-	tr212:
+	tr211:
 		m.cs = 172
 		goto _again
 	tr42:
@@ -4107,13 +4104,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr48:
 		m.cs = 173
 		goto f9
-	tr214:
+	tr213:
 		m.cs = 174
 		goto _again
 	tr82:
 		m.cs = 174
 		goto f16
-	tr216:
+	tr215:
 		m.cs = 175
 		goto _again
 	tr84:
@@ -4125,109 +4122,109 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	tr90:
 		m.cs = 176
 		goto f9
-	tr218:
+	tr217:
 		m.cs = 177
 		goto _again
-	tr170:
+	tr169:
 		m.cs = 177
 		goto f4
-	tr219:
+	tr218:
 		m.cs = 178
-		goto f38
-	tr227:
+		goto f37
+	tr226:
 		m.cs = 178
-		goto f42
-	tr233:
+		goto f41
+	tr232:
 		m.cs = 178
-		goto f45
-	tr239:
+		goto f44
+	tr238:
 		m.cs = 178
-		goto f48
-	tr244:
+		goto f47
+	tr243:
 		m.cs = 178
-		goto f51
-	tr224:
+		goto f50
+	tr223:
 		m.cs = 179
 		goto _again
-	tr222:
+	tr221:
 		m.cs = 179
 		goto f4
-	tr175:
+	tr174:
 		m.cs = 180
 		goto _again
-	tr176:
+	tr175:
 		m.cs = 180
 		goto f9
-	tr180:
+	tr179:
 		m.cs = 181
 		goto _again
-	tr181:
+	tr180:
 		m.cs = 181
 		goto f9
-	tr226:
+	tr225:
 		m.cs = 182
 		goto _again
-	tr186:
+	tr185:
 		m.cs = 182
-		goto f26
-	tr232:
+		goto f25
+	tr231:
 		m.cs = 182
-		goto f44
-	tr192:
+		goto f43
+	tr191:
 		m.cs = 183
 		goto _again
-	tr193:
+	tr192:
 		m.cs = 183
 		goto f9
-	tr229:
+	tr228:
 		m.cs = 184
-		goto f42
-	tr235:
+		goto f41
+	tr234:
 		m.cs = 184
-		goto f45
-	tr230:
+		goto f44
+	tr229:
 		m.cs = 185
 		goto _again
-	tr231:
+	tr230:
 		m.cs = 186
 		goto _again
-	tr238:
+	tr237:
 		m.cs = 187
 		goto _again
-	tr204:
+	tr203:
 		m.cs = 187
-		goto f31
-	tr243:
+		goto f30
+	tr242:
 		m.cs = 187
-		goto f50
-	tr197:
+		goto f49
+	tr196:
 		m.cs = 188
 		goto _again
-	tr198:
+	tr197:
 		m.cs = 188
 		goto f9
-	tr241:
+	tr240:
 		m.cs = 189
 		goto _again
-	tr246:
+	tr245:
 		m.cs = 189
-		goto f50
-	tr242:
+		goto f49
+	tr241:
 		m.cs = 190
 		goto _again
-	tr202:
+	tr201:
 		m.cs = 191
 		goto _again
-	tr247:
+	tr246:
 		m.cs = 192
-		goto f44
-	tr207:
+		goto f43
+	tr206:
 		m.cs = 193
 		goto _again
-	tr250:
+	tr249:
 		m.cs = 194
-		goto f50
-	tr253:
+		goto f49
+	tr252:
 		m.cs = 195
 		goto _again
 
@@ -4252,7 +4249,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		output.ID = string(m.text())
 
 		goto _again
-	f38:
+	f37:
 
 		output.SS = string(m.text())
 		output.norm = m.lowered(output.tolower)
@@ -4285,7 +4282,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 
 		goto _again
-	f23:
+	f22:
 
 		if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
 			m.err = fmt.Errorf(errHex, m.p)
@@ -4347,7 +4344,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		output.scim.pos = m.p
 
 		goto _again
-	f35:
+	f34:
 
 		output.scim.Name = string(m.data[output.scim.pos:m.p])
 
@@ -4357,7 +4354,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		output.scim.pos = m.p
 
 		goto _again
-	f22:
+	f21:
 
 		m.err = fmt.Errorf(err8141SpecificString, m.p)
 		(m.p)--
@@ -4366,7 +4363,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 
 		goto _again
-	f21:
+	f20:
 
 		m.err = fmt.Errorf(err8141Identifier, m.p)
 		(m.p)--
@@ -4375,17 +4372,17 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 
 		goto _again
-	f42:
+	f41:
 
 		output.rComponent = string(m.text())
 
 		goto _again
-	f48:
+	f47:
 
 		output.qComponent = string(m.text())
 
 		goto _again
-	f44:
+	f43:
 
 		if output.rStart {
 			m.err = fmt.Errorf(err8141RComponentStart, m.p)
@@ -4398,7 +4395,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		output.rStart = true
 
 		goto _again
-	f50:
+	f49:
 
 		if output.qStart {
 			m.err = fmt.Errorf(err8141QComponentStart, m.p)
@@ -4411,7 +4408,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		output.qStart = true
 
 		goto _again
-	f25:
+	f24:
 
 		m.err = fmt.Errorf(err8141MalformedRComp, m.p)
 		(m.p)--
@@ -4420,7 +4417,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 
 		goto _again
-	f30:
+	f29:
 
 		m.err = fmt.Errorf(err8141MalformedQComp, m.p)
 		(m.p)--
@@ -4525,7 +4522,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 
 		goto _again
-	f24:
+	f23:
 
 		if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
 			m.err = fmt.Errorf(errHex, m.p)
@@ -4543,7 +4540,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 
 		goto _again
-	f27:
+	f26:
 
 		if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
 			m.err = fmt.Errorf(errHex, m.p)
@@ -4561,7 +4558,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 
 		goto _again
-	f28:
+	f27:
 
 		if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
 			m.err = fmt.Errorf(errHex, m.p)
@@ -4579,22 +4576,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 
 		goto _again
-	f20:
-
-		m.err = fmt.Errorf(err8141Identifier, m.p)
-		(m.p)--
-
-		m.cs = 195
-		goto _again
-
-		m.err = fmt.Errorf(errPrefix, m.p)
-		(m.p)--
-
-		m.cs = 195
-		goto _again
-
-		goto _again
-	f26:
+	f25:
 
 		if output.rStart {
 			m.err = fmt.Errorf(err8141RComponentStart, m.p)
@@ -4609,7 +4591,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.pb = m.p
 
 		goto _again
-	f45:
+	f44:
 
 		if output.rStart {
 			m.err = fmt.Errorf(err8141RComponentStart, m.p)
@@ -4624,7 +4606,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		output.rComponent = string(m.text())
 
 		goto _again
-	f31:
+	f30:
 
 		if output.qStart {
 			m.err = fmt.Errorf(err8141QComponentStart, m.p)
@@ -4639,7 +4621,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		m.pb = m.p
 
 		goto _again
-	f51:
+	f50:
 
 		if output.qStart {
 			m.err = fmt.Errorf(err8141QComponentStart, m.p)
@@ -4654,7 +4636,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		output.qComponent = string(m.text())
 
 		goto _again
-	f46:
+	f45:
 
 		m.err = fmt.Errorf(err8141MalformedRComp, m.p)
 		(m.p)--
@@ -4669,7 +4651,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 
 		goto _again
-	f29:
+	f28:
 
 		if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
 			m.err = fmt.Errorf(errHex, m.p)
@@ -4696,7 +4678,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 	_again:
 		switch _toStateActions[m.cs] {
-		case 33:
+		case 32:
 
 			(m.p)--
 
@@ -4740,7 +4722,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.cs = 195
 				goto _again
 
-			case 24:
+			case 23:
 
 				if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
 					m.err = fmt.Errorf(errHex, m.p)
@@ -4787,7 +4769,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.cs = 195
 				goto _again
 
-			case 23:
+			case 22:
 
 				m.err = fmt.Errorf(err8141SpecificString, m.p)
 				(m.p)--
@@ -4795,7 +4777,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.cs = 195
 				goto _again
 
-			case 22:
+			case 21:
 
 				m.err = fmt.Errorf(err8141Identifier, m.p)
 				(m.p)--
@@ -4803,7 +4785,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.cs = 195
 				goto _again
 
-			case 26:
+			case 25:
 
 				m.err = fmt.Errorf(err8141MalformedRComp, m.p)
 				(m.p)--
@@ -4811,7 +4793,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.cs = 195
 				goto _again
 
-			case 31:
+			case 30:
 
 				m.err = fmt.Errorf(err8141MalformedQComp, m.p)
 				(m.p)--
@@ -4819,14 +4801,14 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.cs = 195
 				goto _again
 
-			case 34:
+			case 33:
 
 				output.SS = string(m.text())
 				output.norm = m.lowered(output.tolower)
 
 				output.kind = RFC2141
 
-			case 38:
+			case 37:
 
 				output.SS = string(m.text())
 				output.norm = m.lowered(output.tolower)
@@ -4899,7 +4881,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.cs = 195
 				goto _again
 
-			case 25:
+			case 24:
 
 				if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
 					m.err = fmt.Errorf(errHex, m.p)
@@ -4916,7 +4898,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.cs = 195
 				goto _again
 
-			case 28:
+			case 27:
 
 				if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
 					m.err = fmt.Errorf(errHex, m.p)
@@ -4933,7 +4915,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.cs = 195
 				goto _again
 
-			case 29:
+			case 28:
 
 				if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
 					m.err = fmt.Errorf(errHex, m.p)
@@ -4950,39 +4932,25 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.cs = 195
 				goto _again
 
-			case 21:
-
-				m.err = fmt.Errorf(err8141Identifier, m.p)
-				(m.p)--
-
-				m.cs = 195
-				goto _again
-
-				m.err = fmt.Errorf(errPrefix, m.p)
-				(m.p)--
-
-				m.cs = 195
-				goto _again
-
-			case 42:
+			case 41:
 
 				output.rComponent = string(m.text())
 
 				output.kind = RFC8141
 
-			case 48:
+			case 47:
 
 				output.qComponent = string(m.text())
 
 				output.kind = RFC8141
 
-			case 41:
+			case 40:
 
 				output.fComponent = string(m.text())
 
 				output.kind = RFC8141
 
-			case 40:
+			case 39:
 
 				m.pb = m.p
 
@@ -4990,7 +4958,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 				output.kind = RFC8141
 
-			case 30:
+			case 29:
 
 				if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
 					m.err = fmt.Errorf(errHex, m.p)
@@ -5013,7 +4981,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				m.cs = 195
 				goto _again
 
-			case 35:
+			case 34:
 
 				output.scim.Name = string(m.data[output.scim.pos:m.p])
 
@@ -5022,7 +4990,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 				output.kind = RFC7643
 
-			case 37:
+			case 36:
 
 				output.scim.Other = string(m.data[output.scim.pos:m.p])
 
@@ -5031,7 +4999,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 				output.kind = RFC7643
 
-			case 44:
+			case 43:
 
 				if output.rStart {
 					m.err = fmt.Errorf(err8141RComponentStart, m.p)
@@ -5047,7 +5015,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 				output.kind = RFC8141
 
-			case 50:
+			case 49:
 
 				if output.qStart {
 					m.err = fmt.Errorf(err8141QComponentStart, m.p)
diff --git a/machine.go.rl b/machine.go.rl
index 47620c0..feebc18 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -276,7 +276,7 @@ nss_rfc8141 = (pchar >mark (pchar | '/')*) $err(err_nss_8141) %set_nss;
 
 nid_rfc8141 = (alnum >mark (alnum | '-'){0,30} alnum) $err(err_nid_8141) %set_nid;
 
-informal_id = pre ('-' [a-zA-z0] %to(informal_nid_match));
+informal_id = ([uU] [rR] [nN]) ('-' [a-zA-z0] %to(informal_nid_match));
 
 nid_rfc8141_not_urn = (nid_rfc8141 - informal_id?);
 
-- 
2.43.0


From 9c5caa7b155d643d72e1d5233a29057f9859a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:01 +0000
Subject: [PATCH 9/9] fix: parse components with many question marks in linear
 time

---
 machine.go    | 6 ++++--
 machine.go.rl | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/machine.go b/machine.go
index 7d30e70..574d3ef 100644
--- a/machine.go
+++ b/machine.go
@@ -99,6 +99,7 @@ type Machine interface {
 
 type machine struct {
 	data           []byte
+	src            string // Copy of data, which the parts of the URN are taken from
 	cs             int
 	p, pe, eof, pb int
 	err            error
@@ -131,8 +132,8 @@ func (m *machine) Error() error {
 	return m.err
 }
 
-func (m *machine) text() []byte {
-	return m.data[m.pb:m.p]
+func (m *machine) text() string {
+	return m.src[m.pb:m.p]
 }
 
 // lowered returns the current text with the upper letters at the given positions lowercased.
@@ -150,6 +151,7 @@ func (m *machine) lowered(positions []int) string {
 // Parse parses the input byte array as a RFC 2141 or RFC7643 string.
 func (m *machine) Parse(input []byte) (*URN, error) {
 	m.data = input
+	m.src = string(input)
 	m.p = 0
 	m.pb = 0
 	m.pe = len(input)
diff --git a/machine.go.rl b/machine.go.rl
index feebc18..b8b71fe 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -301,6 +301,7 @@ type Machine interface {
 
 type machine struct {
     data              []byte
+    src               string // Copy of data, which the parts of the URN are taken from
     cs                int
     p, pe, eof, pb    int
     err               error
@@ -339,8 +340,8 @@ func (m *machine) Error() error {
     return m.err
 }
 
-func (m *machine) text() []byte {
-    return m.data[m.pb:m.p]
+func (m *machine) text() string {
+    return m.src[m.pb:m.p]
 }
 
 // lowered returns the current text with the upper letters at the given positions lowercased.
@@ -358,6 +359,7 @@ func (m *machine) lowered(positions []int) string {
 // Parse parses the input byte array as a RFC 2141 or RFC7643 string.
 func (m *machine) Parse(input []byte) (*URN, error) {
     m.data = input
+    m.src = string(input)
     m.p = 0
     m.pb = 0
     m.pe = len(input)
-- 
2.43.0


From 0c9b5e0bc55fd504a290d499124ff3571ed22d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 01/37] fix: check string table bounds before allocating and
 slicing in MO files

A negative string length panicked, large counts and lengths allocated
gigabytes, truncated strings were padded with NUL bytes and an empty
string at the end of the file made the whole file be rejected.
---
 mo.go | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/mo.go b/mo.go
index 389deba..f9ac4cc 100644
--- a/mo.go
+++ b/mo.go
@@ -203,6 +203,14 @@ func (mo *Mo) Parse(buf []byte) {
 		// return fmt.Errorf("gettext: %v", "invalid version number")
 	}
 
+	// The input must be long enough to hold both tables
+	size := uint64(len(buf))
+	count := uint64(header.MsgIDCount)
+	if uint64(header.MsgIDOffset)+8*count > size || uint64(header.MsgStrOffset)+8*count > size {
+		return
+		// return fmt.Errorf("gettext: %v", "truncated string table")
+	}
+
 	msgIDStart := make([]uint32, header.MsgIDCount)
 	msgIDLen := make([]uint32, header.MsgIDCount)
 	if _, err := r.Seek(int64(header.MsgIDOffset), 0); err != nil {
@@ -220,8 +228,8 @@ func (mo *Mo) Parse(buf []byte) {
 		}
 	}
 
-	msgStrStart := make([]int32, header.MsgIDCount)
-	msgStrLen := make([]int32, header.MsgIDCount)
+	msgStrStart := make([]uint32, header.MsgIDCount)
+	msgStrLen := make([]uint32, header.MsgIDCount)
 	if _, err := r.Seek(int64(header.MsgStrOffset), 0); err != nil {
 		return
 		// return fmt.Errorf("gettext: %v", err)
@@ -238,25 +246,19 @@ func (mo *Mo) Parse(buf []byte) {
 	}
 
 	for i := 0; i < int(header.MsgIDCount); i++ {
-		if _, err := r.Seek(int64(msgIDStart[i]), 0); err != nil {
+		msgIDEnd := uint64(msgIDStart[i]) + uint64(msgIDLen[i])
+		if msgIDEnd > size {
 			return
-			// return fmt.Errorf("gettext: %v", err)
-		}
-		msgIDData := make([]byte, msgIDLen[i])
-		if _, err := r.Read(msgIDData); err != nil {
-			return
-			// return fmt.Errorf("gettext: %v", err)
+			// return fmt.Errorf("gettext: %v", "truncated string")
 		}
+		msgIDData := buf[msgIDStart[i]:msgIDEnd]
 
-		if _, err := r.Seek(int64(msgStrStart[i]), 0); err != nil {
+		msgStrEnd := uint64(msgStrStart[i]) + uint64(msgStrLen[i])
+		if msgStrEnd > size {
 			return
-			// return fmt.Errorf("gettext: %v", err)
-		}
-		msgStrData := make([]byte, msgStrLen[i])
-		if _, err := r.Read(msgStrData); err != nil {
-			return
-			// return fmt.Errorf("gettext: %v", err)
+			// return fmt.Errorf("gettext: %v", "truncated string")
 		}
+		msgStrData := buf[msgStrStart[i]:msgStrEnd]
 
 		if len(msgIDData) == 0 {
 			mo.addTranslation(msgIDData, msgStrData)
-- 
2.43.0


From ee7bf987f8180230e615f159b0ca5278f4c4e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 02/37] fix: give singular MO messages no plural id

The message id itself was recorded as plural id of every message without
one, so that GetN answered the singular where it has no translation and
a text export turned every message into a plural one.
---
 mo.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mo.go b/mo.go
index f9ac4cc..a0e5d3e 100644
--- a/mo.go
+++ b/mo.go
@@ -292,12 +292,11 @@ func (mo *Mo) addTranslation(msgid, msgstr []byte) {
 	dd := bytes.Split(msgid, []byte(NulSeparator))
 	if len(dd) > 1 {
 		msgid = dd[0]
-		dd = dd[1:]
+		msgidPlural = bytes.Join(dd[1:], []byte(NulSeparator))
 	}
 
 	translation.ID = string(msgid)
 
-	msgidPlural = bytes.Join(dd, []byte(NulSeparator))
 	if len(msgidPlural) > 0 {
 		translation.PluralID = string(msgidPlural)
 	}
-- 
2.43.0


From 658d4f9c578d0e284a8ca5cdfcff8d28a9a12981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 03/37] fix: package-level lookups without any locale return
 the source text

Before Configure was called (or after SetLocales with no locales) Get
panicked on locales[0] or returned an empty string, and SetLocales
itself panicked on an empty list.
---
 gotext.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/gotext.go b/gotext.go
index 059403c..09dce36 100644
--- a/gotext.go
+++ b/gotext.go
@@ -68,7 +68,7 @@ func init() {
 func loadLocales(rebuildCache bool) {
 	globalConfig.Lock()
 
-	if globalConfig.locales == nil || rebuildCache {
+	if len(globalConfig.locales) == 0 || rebuildCache {
 		var locales []*Locale
 		for _, language := range globalConfig.languages {
 			locales = append(locales, NewLocale(globalConfig.library, language))
@@ -90,7 +90,7 @@ func loadLocales(rebuildCache bool) {
 func GetDomain() string {
 	var dom string
 	globalConfig.RLock()
-	if globalConfig.locales != nil {
+	if len(globalConfig.locales) > 0 {
 		// All locales have the same domain
 		dom = globalConfig.locales[0].GetDomain()
 	}
@@ -194,8 +194,10 @@ func SetLocales(locales []*Locale) {
 	defer globalConfig.Unlock()
 
 	globalConfig.locales = locales
-	globalConfig.library = locales[0].path
-	globalConfig.domain = locales[0].defaultDomain
+	if len(locales) > 0 {
+		globalConfig.library = locales[0].path
+		globalConfig.domain = locales[0].defaultDomain
+	}
 
 	var languages []string
 	for _, locale := range locales {
@@ -250,6 +252,11 @@ func GetD(dom, str string, vars ...interface{}) string {
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
 
+	// Return the same we received when there is no locale at all
+	if len(globalConfig.locales) == 0 {
+		return FormatString(str, vars...)
+	}
+
 	var tr string
 	for i, locale := range globalConfig.locales {
 		if _, ok := locale.Domains[dom]; !ok {
@@ -273,6 +280,14 @@ func GetND(dom, str, plural string, n int, vars ...interface{}) string {
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
 
+	// Return the same we received when there is no locale at all
+	if len(globalConfig.locales) == 0 {
+		if n == 1 {
+			return FormatString(str, vars...)
+		}
+		return FormatString(plural, vars...)
+	}
+
 	var tr string
 	for i, locale := range globalConfig.locales {
 		if _, ok := locale.Domains[dom]; !ok {
@@ -308,6 +323,11 @@ func GetDC(dom, str, ctx string, vars ...interface{}) string {
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
 
+	// Return the same we received when there is no locale at all
+	if len(globalConfig.locales) == 0 {
+		return FormatString(str, vars...)
+	}
+
 	var tr string
 	for i, locale := range globalConfig.locales {
 		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(globalConfig.locales)-1) {
@@ -329,6 +349,14 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
 
+	// Return the same we received when there is no locale at all
+	if len(globalConfig.locales) == 0 {
+		if n == 1 {
+			return FormatString(str, vars...)
+		}
+		return FormatString(plural, vars...)
+	}
+
 	var tr string
 	for i, locale := range globalConfig.locales {
 		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(globalConfig.locales)-1) {
-- 
2.43.0


From 0253188427d2d8b36a9305d7d1a345613c5cf5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 04/37] fix: access a Locale's fields under its lock everywhere

The package-level functions, findExt, GetActualLanguage and the binary
(un)marshallers read or wrote Domains, path, lang and defaultDomain
without the lock that AddDomain, SetDomain and AddTranslator take.
---
 gotext.go | 12 ++++++------
 locale.go | 56 +++++++++++++++++++++++++++++++++++++++----------------
 2 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/gotext.go b/gotext.go
index 09dce36..ed6c6bb 100644
--- a/gotext.go
+++ b/gotext.go
@@ -77,7 +77,7 @@ func loadLocales(rebuildCache bool) {
 	}
 
 	for _, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[globalConfig.domain]; !ok || rebuildCache {
+		if !locale.hasDomain(globalConfig.domain) || rebuildCache {
 			locale.AddDomain(globalConfig.domain)
 		}
 		locale.SetDomain(globalConfig.domain)
@@ -195,13 +195,13 @@ func SetLocales(locales []*Locale) {
 
 	globalConfig.locales = locales
 	if len(locales) > 0 {
-		globalConfig.library = locales[0].path
-		globalConfig.domain = locales[0].defaultDomain
+		globalConfig.library, _ = locales[0].location()
+		globalConfig.domain = locales[0].GetDomain()
 	}
 
 	var languages []string
 	for _, locale := range locales {
-		languages = append(languages, locale.lang)
+		languages = append(languages, locale.GetLanguage())
 	}
 	globalConfig.languages = languages
 }
@@ -259,7 +259,7 @@ func GetD(dom, str string, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[dom]; !ok {
+		if !locale.hasDomain(dom) {
 			locale.AddDomain(dom)
 		}
 		if !locale.IsTranslatedD(dom, str) && i < (len(globalConfig.locales)-1) {
@@ -290,7 +290,7 @@ func GetND(dom, str, plural string, n int, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[dom]; !ok {
+		if !locale.hasDomain(dom) {
 			locale.AddDomain(dom)
 		}
 		if !locale.IsTranslatedND(dom, str, n) && i < (len(globalConfig.locales)-1) {
diff --git a/locale.go b/locale.go
index 381e560..0dcdfc9 100644
--- a/locale.go
+++ b/locale.go
@@ -90,26 +90,43 @@ func NewLocaleFSWithPath(l string, filesystem fs.FS, p string) *Locale {
 	return loc
 }
 
+// location returns the path and language of the locale
+func (l *Locale) location() (string, string) {
+	l.RLock()
+	defer l.RUnlock()
+	return l.path, l.lang
+}
+
+// hasDomain reports whether a domain is loaded
+func (l *Locale) hasDomain(dom string) bool {
+	l.RLock()
+	defer l.RUnlock()
+	_, ok := l.Domains[dom]
+	return ok
+}
+
 func (l *Locale) findExt(dom, ext string) string {
-	filename := path.Join(l.path, l.lang, "LC_MESSAGES", dom+"."+ext)
+	p, lang := l.location()
+
+	filename := path.Join(p, lang, "LC_MESSAGES", dom+"."+ext)
 	if l.fileExists(filename) {
 		return filename
 	}
 
-	if len(l.lang) > 2 {
-		filename = path.Join(l.path, l.lang[:2], "LC_MESSAGES", dom+"."+ext)
+	if len(lang) > 2 {
+		filename = path.Join(p, lang[:2], "LC_MESSAGES", dom+"."+ext)
 		if l.fileExists(filename) {
 			return filename
 		}
 	}
 
-	filename = path.Join(l.path, l.lang, dom+"."+ext)
+	filename = path.Join(p, lang, dom+"."+ext)
 	if l.fileExists(filename) {
 		return filename
 	}
 
-	if len(l.lang) > 2 {
-		filename = path.Join(l.path, l.lang[:2], dom+"."+ext)
+	if len(lang) > 2 {
+		filename = path.Join(p, lang[:2], dom+"."+ext)
 		if l.fileExists(filename) {
 			return filename
 		}
@@ -121,31 +138,32 @@ func (l *Locale) findExt(dom, ext string) string {
 // GetActualLanguage inspects the filesystem and decides whether to strip
 // a CC part of the ll_CC locale string.
 func (l *Locale) GetActualLanguage(dom string) string {
+	p, lang := l.location()
 	extensions := []string{"mo", "po"}
 	var fp string
 	for _, ext := range extensions {
 		// 'll' (or 'll_CC') exists, and it was specified as-is
-		fp = path.Join(l.path, l.lang, "LC_MESSAGES", dom+"."+ext)
+		fp = path.Join(p, lang, "LC_MESSAGES", dom+"."+ext)
 		if l.fileExists(fp) {
-			return l.lang
+			return lang
 		}
 		// 'll' exists, but 'll_CC' was specified
-		if len(l.lang) > 2 {
-			fp = path.Join(l.path, l.lang[:2], "LC_MESSAGES", dom+"."+ext)
+		if len(lang) > 2 {
+			fp = path.Join(p, lang[:2], "LC_MESSAGES", dom+"."+ext)
 			if l.fileExists(fp) {
-				return l.lang[:2]
+				return lang[:2]
 			}
 		}
 		// 'll' (or 'll_CC') exists outside of LC_category, and it was specified as-is
-		fp = path.Join(l.path, l.lang, dom+"."+ext)
+		fp = path.Join(p, lang, dom+"."+ext)
 		if l.fileExists(fp) {
-			return l.lang
+			return lang
 		}
 		// 'll' exists outside of LC_category, but 'll_CC' was specified
-		if len(l.lang) > 2 {
-			fp = path.Join(l.path, l.lang[:2], dom+"."+ext)
+		if len(lang) > 2 {
+			fp = path.Join(p, lang[:2], dom+"."+ext)
 			if l.fileExists(fp) {
-				return l.lang[:2]
+				return lang[:2]
 			}
 		}
 	}
@@ -425,6 +443,9 @@ type LocaleEncoding struct {
 
 // MarshalBinary implements encoding BinaryMarshaler interface
 func (l *Locale) MarshalBinary() ([]byte, error) {
+	l.RLock()
+	defer l.RUnlock()
+
 	obj := new(LocaleEncoding)
 	obj.DefaultDomain = l.defaultDomain
 	obj.Domains = make(map[string][]byte)
@@ -456,6 +477,9 @@ func (l *Locale) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	l.Lock()
+	defer l.Unlock()
+
 	l.defaultDomain = obj.DefaultDomain
 	l.lang = obj.Lang
 	l.path = obj.Path
-- 
2.43.0


From 1b8fbdc49eddd8e6c5640eb34f427b1ddf384dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 05/37] fix: lock a Domain in its (un)marshallers, copy
 functions and SetPluralResolver

They read or wrote the catalogue and the plural resolver without the
mutexes that every lookup, setter and parser takes.
---
 domain.go | 24 ++++++++++++++++++++----
 po.go     |  2 +-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/domain.go b/domain.go
index 328b255..8140032 100644
--- a/domain.go
+++ b/domain.go
@@ -102,6 +102,9 @@ func NewDomain() *Domain {
 
 // SetPluralResolver sets a custom plural resolver function
 func (do *Domain) SetPluralResolver(f func(int) int) {
+	do.pluralMutex.Lock()
+	defer do.pluralMutex.Unlock()
+
 	do.customPluralResolver = f
 }
 
@@ -546,11 +549,11 @@ func (do *Domain) IsTranslatedNC(str string, n int, ctx string) bool {
 
 // GetTranslations returns a copy of every translation in the domain. It does not support contexts.
 func (do *Domain) GetTranslations() map[string]*Translation {
-	all := make(map[string]*Translation, len(do.translations))
-
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
+	all := make(map[string]*Translation, len(do.translations))
+
 	for msgID, trans := range do.translations {
 		newTrans := NewTranslation()
 		newTrans.ID = trans.ID
@@ -571,11 +574,11 @@ func (do *Domain) GetTranslations() map[string]*Translation {
 
 // GetCtxTranslations returns a copy of every translation in the domain with context
 func (do *Domain) GetCtxTranslations() map[string]map[string]*Translation {
-	all := make(map[string]map[string]*Translation, len(do.contextTranslations))
-
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
+	all := make(map[string]map[string]*Translation, len(do.contextTranslations))
+
 	for ctx, translations := range do.contextTranslations {
 		for msgID, trans := range translations {
 			newTrans := NewTranslation()
@@ -627,6 +630,9 @@ func extractPathAndLine(ref string) (string, int) {
 // MarshalText implements encoding.TextMarshaler interface
 // Assists round-trip of POT/PO content
 func (do *Domain) MarshalText() ([]byte, error) {
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
 	var buf bytes.Buffer
 	if len(do.headerComments) > 0 {
 		buf.WriteString(strings.Join(do.headerComments, "\n"))
@@ -823,6 +829,11 @@ func EscapeSpecialCharacters(s string) string {
 
 // MarshalBinary implements encoding.BinaryMarshaler interface
 func (do *Domain) MarshalBinary() ([]byte, error) {
+	do.trMutex.RLock()
+	do.pluralMutex.RLock()
+	defer do.trMutex.RUnlock()
+	defer do.pluralMutex.RUnlock()
+
 	obj := new(TranslatorEncoding)
 	obj.Headers = do.Headers
 	obj.Language = do.Language
@@ -850,6 +861,11 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	do.trMutex.Lock()
+	do.pluralMutex.Lock()
+	defer do.trMutex.Unlock()
+	defer do.pluralMutex.Unlock()
+
 	do.Headers = obj.Headers
 	do.Language = obj.Language
 	do.PluralForms = obj.PluralForms
diff --git a/po.go b/po.go
index e70eb87..8b00825 100644
--- a/po.go
+++ b/po.go
@@ -94,7 +94,7 @@ func (po *Po) GetRefs(str string) []string {
 
 // SetPluralResolver sets the plural resolver function
 func (po *Po) SetPluralResolver(f func(int) int) {
-	po.domain.customPluralResolver = f
+	po.domain.SetPluralResolver(f)
 }
 
 // Set translation
-- 
2.43.0


From 2ff64fefc633401bcd6c0d119ec6f0fa988a2de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 06/37] fix: load a domain on demand for context lookups and
 IsTranslated queries

GetDC, GetNDC and the IsTranslated functions ignored the translations of
a domain that GetD or GetND had not loaded before.
---
 gotext.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gotext.go b/gotext.go
index ed6c6bb..3053d1e 100644
--- a/gotext.go
+++ b/gotext.go
@@ -330,6 +330,9 @@ func GetDC(dom, str, ctx string, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
+		if !locale.hasDomain(dom) {
+			locale.AddDomain(dom)
+		}
 		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
@@ -359,6 +362,9 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 
 	var tr string
 	for i, locale := range globalConfig.locales {
+		if !locale.hasDomain(dom) {
+			locale.AddDomain(dom)
+		}
 		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
@@ -405,6 +411,9 @@ func IsTranslatedND(dom, str string, n int, langs ...string) bool {
 			if lang != supportedLocale.GetActualLanguage(dom) {
 				continue
 			}
+			if !supportedLocale.hasDomain(dom) {
+				supportedLocale.AddDomain(dom)
+			}
 			return supportedLocale.IsTranslatedND(dom, str, n)
 		}
 	}
@@ -448,6 +457,9 @@ func IsTranslatedNDC(dom, str string, n int, ctx string, langs ...string) bool {
 			if lang != locale.GetActualLanguage(dom) {
 				continue
 			}
+			if !locale.hasDomain(dom) {
+				locale.AddDomain(dom)
+			}
 			return locale.IsTranslatedNDC(dom, str, n, ctx)
 		}
 	}
-- 
2.43.0


From cecef948fb5a819d8a4cf8514e2d6450afe124dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 07/37] fix: IsTranslated without a number checks the form that
 Get returns

IsTranslated and IsTranslatedC looked at the plural form of 1 (of 0 in
the package-level IsTranslatedDC), but Get and GetC use form 0. Where the
rule maps 1 to another form, as in Arabic, translated messages were
reported untranslated and package-level Get skipped the language.
---
 domain.go | 18 ++++++++++++++++--
 gotext.go | 52 ++++++++++++++++++++++++++++++++++++++++++++++++----
 locale.go | 22 ++++++++++++++++++----
 3 files changed, 82 insertions(+), 10 deletions(-)

diff --git a/domain.go b/domain.go
index 8140032..7183800 100644
--- a/domain.go
+++ b/domain.go
@@ -505,7 +505,14 @@ func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars
 
 // IsTranslated reports whether a string is translated
 func (do *Domain) IsTranslated(str string) bool {
-	return do.IsTranslatedN(str, 1)
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
+	tr, ok := do.translations[str]
+	if !ok {
+		return false
+	}
+	return tr.IsTranslated()
 }
 
 // IsTranslatedN reports whether a plural string is translated
@@ -525,7 +532,14 @@ func (do *Domain) IsTranslatedN(str string, n int) bool {
 
 // IsTranslatedC reports whether a context string is translated
 func (do *Domain) IsTranslatedC(str, ctx string) bool {
-	return do.IsTranslatedNC(str, 1, ctx)
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
+	tr, ok := do.contextTranslations[ctx][str]
+	if !ok {
+		return false
+	}
+	return tr.IsTranslated()
 }
 
 // IsTranslatedNC reports whether a plural context string is translated
diff --git a/gotext.go b/gotext.go
index 3053d1e..f9d813f 100644
--- a/gotext.go
+++ b/gotext.go
@@ -377,7 +377,7 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 // IsTranslated reports whether a string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslated(str string, langs ...string) bool {
-	return IsTranslatedND(GetDomain(), str, 1, langs...)
+	return IsTranslatedD(GetDomain(), str, langs...)
 }
 
 // IsTranslatedN reports whether a plural string is translated in given languages.
@@ -389,7 +389,29 @@ func IsTranslatedN(str string, n int, langs ...string) bool {
 // IsTranslatedD reports whether a domain string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedD(dom, str string, langs ...string) bool {
-	return IsTranslatedND(dom, str, 1, langs...)
+	if len(langs) == 0 {
+		langs = GetLanguages()
+	}
+
+	loadLocales(false)
+
+	globalConfig.RLock()
+	defer globalConfig.RUnlock()
+
+	for _, lang := range langs {
+		lang = SimplifiedLocale(lang)
+
+		for _, locale := range globalConfig.locales {
+			if lang != locale.GetActualLanguage(dom) {
+				continue
+			}
+			if !locale.hasDomain(dom) {
+				locale.AddDomain(dom)
+			}
+			return locale.IsTranslatedD(dom, str)
+		}
+	}
+	return false
 }
 
 // IsTranslatedND reports whether a plural domain string is translated in any of given languages.
@@ -423,7 +445,7 @@ func IsTranslatedND(dom, str string, n int, langs ...string) bool {
 // IsTranslatedC reports whether a context string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedC(str, ctx string, langs ...string) bool {
-	return IsTranslatedNDC(GetDomain(), str, 1, ctx, langs...)
+	return IsTranslatedDC(GetDomain(), str, ctx, langs...)
 }
 
 // IsTranslatedNC reports whether a plural context string is translated in given languages.
@@ -435,7 +457,29 @@ func IsTranslatedNC(str string, n int, ctx string, langs ...string) bool {
 // IsTranslatedDC reports whether a domain context string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedDC(dom, str, ctx string, langs ...string) bool {
-	return IsTranslatedNDC(dom, str, 0, ctx, langs...)
+	if len(langs) == 0 {
+		langs = GetLanguages()
+	}
+
+	loadLocales(false)
+
+	globalConfig.RLock()
+	defer globalConfig.RUnlock()
+
+	for _, lang := range langs {
+		lang = SimplifiedLocale(lang)
+
+		for _, locale := range globalConfig.locales {
+			if lang != locale.GetActualLanguage(dom) {
+				continue
+			}
+			if !locale.hasDomain(dom) {
+				locale.AddDomain(dom)
+			}
+			return locale.IsTranslatedDC(dom, str, ctx)
+		}
+	}
+	return false
 }
 
 // IsTranslatedNDC reports whether a plural domain context string is translated in any of given languages.
diff --git a/locale.go b/locale.go
index 0dcdfc9..555058f 100644
--- a/locale.go
+++ b/locale.go
@@ -375,7 +375,7 @@ func (l *Locale) GetTranslations() map[string]*Translation {
 
 // IsTranslated reports whether a string is translated
 func (l *Locale) IsTranslated(str string) bool {
-	return l.IsTranslatedND(l.GetDomain(), str, 1)
+	return l.IsTranslatedD(l.GetDomain(), str)
 }
 
 // IsTranslatedN reports whether a plural string is translated
@@ -385,7 +385,14 @@ func (l *Locale) IsTranslatedN(str string, n int) bool {
 
 // IsTranslatedD reports whether a domain string is translated
 func (l *Locale) IsTranslatedD(dom, str string) bool {
-	return l.IsTranslatedND(dom, str, 1)
+	l.RLock()
+	defer l.RUnlock()
+
+	translator, ok := l.Domains[dom]
+	if !ok {
+		return false
+	}
+	return translator.GetDomain().IsTranslated(str)
 }
 
 // IsTranslatedND reports whether a plural domain string is translated
@@ -405,7 +412,7 @@ func (l *Locale) IsTranslatedND(dom, str string, n int) bool {
 
 // IsTranslatedC reports whether a context string is translated
 func (l *Locale) IsTranslatedC(str, ctx string) bool {
-	return l.IsTranslatedNDC(l.GetDomain(), str, 1, ctx)
+	return l.IsTranslatedDC(l.GetDomain(), str, ctx)
 }
 
 // IsTranslatedNC reports whether a plural context string is translated
@@ -415,7 +422,14 @@ func (l *Locale) IsTranslatedNC(str string, n int, ctx string) bool {
 
 // IsTranslatedDC reports whether a domain context string is translated
 func (l *Locale) IsTranslatedDC(dom, str, ctx string) bool {
-	return l.IsTranslatedNDC(dom, str, 1, ctx)
+	l.RLock()
+	defer l.RUnlock()
+
+	translator, ok := l.Domains[dom]
+	if !ok {
+		return false
+	}
+	return translator.GetDomain().IsTranslatedC(str, ctx)
 }
 
 // IsTranslatedNDC reports whether a plural domain context string is translated
-- 
2.43.0


From a9bb14b5dae4bfa1fceb97009bebfbb4d61c00cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 08/37] fix: tolerate nil translators in all Locale methods

Lookups handle a domain registered with a nil Translator, but the
IsTranslated queries, GetTranslations and MarshalBinary dereferenced it.
---
 locale.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/locale.go b/locale.go
index 555058f..d981391 100644
--- a/locale.go
+++ b/locale.go
@@ -365,6 +365,9 @@ func (l *Locale) GetTranslations() map[string]*Translation {
 	l.RLock()
 	defer l.RUnlock()
 	for _, translator := range l.Domains {
+		if translator == nil {
+			continue
+		}
 		for msgID, trans := range translator.GetDomain().GetTranslations() {
 			all[msgID] = trans
 		}
@@ -389,7 +392,7 @@ func (l *Locale) IsTranslatedD(dom, str string) bool {
 	defer l.RUnlock()
 
 	translator, ok := l.Domains[dom]
-	if !ok {
+	if !ok || translator == nil {
 		return false
 	}
 	return translator.GetDomain().IsTranslated(str)
@@ -404,7 +407,7 @@ func (l *Locale) IsTranslatedND(dom, str string, n int) bool {
 		return false
 	}
 	translator, ok := l.Domains[dom]
-	if !ok {
+	if !ok || translator == nil {
 		return false
 	}
 	return translator.GetDomain().IsTranslatedN(str, n)
@@ -426,7 +429,7 @@ func (l *Locale) IsTranslatedDC(dom, str, ctx string) bool {
 	defer l.RUnlock()
 
 	translator, ok := l.Domains[dom]
-	if !ok {
+	if !ok || translator == nil {
 		return false
 	}
 	return translator.GetDomain().IsTranslatedC(str, ctx)
@@ -441,7 +444,7 @@ func (l *Locale) IsTranslatedNDC(dom string, str string, n int, ctx string) bool
 		return false
 	}
 	translator, ok := l.Domains[dom]
-	if !ok {
+	if !ok || translator == nil {
 		return false
 	}
 	return translator.GetDomain().IsTranslatedNC(str, n, ctx)
@@ -464,6 +467,9 @@ func (l *Locale) MarshalBinary() ([]byte, error) {
 	obj.DefaultDomain = l.defaultDomain
 	obj.Domains = make(map[string][]byte)
 	for k, v := range l.Domains {
+		if v == nil {
+			continue
+		}
 		var err error
 		obj.Domains[k], err = v.MarshalBinary()
 		if err != nil {
-- 
2.43.0


From 5c1bb8db132d1ae6bc89a1cfce6d2b7030cf214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 09/37] fix: make Locale.GetTranslations deterministic

When several domains translate the same ID, the one returned depended on
the iteration order of the map of domains.
---
 locale.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/locale.go b/locale.go
index d981391..5636dde 100644
--- a/locale.go
+++ b/locale.go
@@ -11,6 +11,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"sort"
 	"sync"
 )
 
@@ -364,7 +365,16 @@ func (l *Locale) GetTranslations() map[string]*Translation {
 
 	l.RLock()
 	defer l.RUnlock()
-	for _, translator := range l.Domains {
+
+	// Visit the domains in a fixed order, as the same ID may be in many
+	domains := make([]string, 0, len(l.Domains))
+	for dom := range l.Domains {
+		domains = append(domains, dom)
+	}
+	sort.Strings(domains)
+
+	for _, dom := range domains {
+		translator := l.Domains[dom]
 		if translator == nil {
 			continue
 		}
-- 
2.43.0


From ae6402ed66530e649745bc61a24d87b90db0f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 10/37] fix: GetActualLanguage looks for files in the order
 that AddDomain does

With a .po file in one directory and a .mo file in the other it named
the directory of the file that is not loaded, and IsTranslated did not
find the locale.
---
 locale.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/locale.go b/locale.go
index 5636dde..a9bfa41 100644
--- a/locale.go
+++ b/locale.go
@@ -140,7 +140,7 @@ func (l *Locale) findExt(dom, ext string) string {
 // a CC part of the ll_CC locale string.
 func (l *Locale) GetActualLanguage(dom string) string {
 	p, lang := l.location()
-	extensions := []string{"mo", "po"}
+	extensions := []string{"po", "mo"}
 	var fp string
 	for _, ext := range extensions {
 		// 'll' (or 'll_CC') exists, and it was specified as-is
-- 
2.43.0


From 43909f6ace1feab9a06e67ebae38fb49f9aa877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 11/37] fix: SetRefs on an existing translation marks it as not
 stale

DropStaleTranslations dropped it, although SetRefs on a missing one and
every other setter protect theirs.
---
 domain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index 7183800..b4b65dc 100644
--- a/domain.go
+++ b/domain.go
@@ -230,7 +230,7 @@ func (do *Domain) SetRefs(str string, refs []string) {
 	defer do.pluralMutex.Unlock()
 
 	if trans, ok := do.translations[str]; ok {
-		trans.Refs = refs
+		trans.SetRefs(refs)
 	} else {
 		trans = NewTranslation()
 		trans.ID = str
-- 
2.43.0


From 0773f4aedf3a389c8d071ca2d92c8d8b497e9db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 12/37] fix: keep the plural id given to SetN and SetNC

SetNC never stored it and SetN only in new translations: a text export
then wrote the message without msgid_plural and lost its plural forms.
---
 domain.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/domain.go b/domain.go
index b4b65dc..d00cbf1 100644
--- a/domain.go
+++ b/domain.go
@@ -314,6 +314,9 @@ func (do *Domain) SetN(id, plural string, n int, str string) {
 	defer do.pluralMutex.Unlock()
 
 	if trans, ok := do.translations[id]; ok {
+		if trans.PluralID == "" {
+			trans.PluralID = plural
+		}
 		trans.SetN(pluralForm, str)
 	} else {
 		trans = NewTranslation()
@@ -442,16 +445,21 @@ func (do *Domain) SetNC(id, plural, ctx string, n int, str string) {
 
 	if context, ok := do.contextTranslations[ctx]; ok {
 		if trans, hasTrans := context[id]; hasTrans {
+			if trans.PluralID == "" {
+				trans.PluralID = plural
+			}
 			trans.SetN(pluralForm, str)
 		} else {
 			trans = NewTranslation()
 			trans.ID = id
+			trans.PluralID = plural
 			trans.SetN(pluralForm, str)
 			context[id] = trans
 		}
 	} else {
 		trans := NewTranslation()
 		trans.ID = id
+		trans.PluralID = plural
 		trans.SetN(pluralForm, str)
 		do.contextTranslations[ctx] = map[string]*Translation{
 			id: trans,
-- 
2.43.0


From dcc9cb430d907672ea23b2522f6ec91a1fb9b283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 13/37] fix: plural lookups fall back to the source text they
 were given

GetN, GetNC and their Append variants returned an empty string for a
message stored without the requested form and without a plural id, and
with a context the fallback ignored the catalogue's plural rule.
---
 domain.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/domain.go b/domain.go
index d00cbf1..33ccdd1 100644
--- a/domain.go
+++ b/domain.go
@@ -335,8 +335,10 @@ func (do *Domain) GetN(str, plural string, n int, vars ...interface{}) string {
 	defer do.trMutex.RUnlock()
 
 	if do.translations != nil {
-		if _, ok := do.translations[str]; ok {
-			return FormatString(do.translations[str].GetN(do.pluralForm(n)), vars...)
+		if tr, ok := do.translations[str]; ok {
+			if form := do.pluralForm(n); tr.IsTranslatedN(form) {
+				return FormatString(tr.GetN(form), vars...)
+			}
 		}
 	}
 
@@ -355,8 +357,10 @@ func (do *Domain) AppendN(b []byte, str, plural string, n int, vars ...interface
 	defer do.trMutex.RUnlock()
 
 	if do.translations != nil {
-		if _, ok := do.translations[str]; ok {
-			return Appendf(b, do.translations[str].GetN(do.pluralForm(n)), vars...)
+		if tr, ok := do.translations[str]; ok {
+			if form := do.pluralForm(n); tr.IsTranslatedN(form) {
+				return Appendf(b, tr.GetN(form), vars...)
+			}
 		}
 	}
 
@@ -476,14 +480,17 @@ func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface
 	if do.contextTranslations != nil {
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
-				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return FormatString(do.contextTranslations[ctx][str].GetN(do.pluralForm(n)), vars...)
+				if tr, ok := do.contextTranslations[ctx][str]; ok {
+					if form := do.pluralForm(n); tr.IsTranslatedN(form) {
+						return FormatString(tr.GetN(form), vars...)
+					}
 				}
 			}
 		}
 	}
 
-	if n == 1 {
+	// Parse plural forms to distinguish between plural and singular
+	if do.pluralForm(n) == 0 {
 		return FormatString(str, vars...)
 	}
 	return FormatString(plural, vars...)
@@ -498,14 +505,17 @@ func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars
 	if do.contextTranslations != nil {
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
-				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return Appendf(b, do.contextTranslations[ctx][str].GetN(do.pluralForm(n)), vars...)
+				if tr, ok := do.contextTranslations[ctx][str]; ok {
+					if form := do.pluralForm(n); tr.IsTranslatedN(form) {
+						return Appendf(b, tr.GetN(form), vars...)
+					}
 				}
 			}
 		}
 	}
 
-	if n == 1 {
+	// Parse plural forms to distinguish between plural and singular
+	if do.pluralForm(n) == 0 {
 		return Appendf(b, str, vars...)
 	}
 	return Appendf(b, plural, vars...)
-- 
2.43.0


From 3e1aba92b9e25e24e5c157adf165985af9fb1d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 14/37] fix: escape everything that a text export puts between
 quotes

Backslashes, leading and adjacent quotes were not escaped, and plural
ids, plural forms and headers not at all, so that exported files lost
text or did not parse.
---
 domain.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/domain.go b/domain.go
index 33ccdd1..d60328f 100644
--- a/domain.go
+++ b/domain.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding/gob"
 	"fmt"
-	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -719,7 +718,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 		v := do.Headers[k]
 
 		for _, value := range v {
-			buf.WriteString("\n\"" + k + ": " + value + "\\n\"")
+			buf.WriteString("\n\"" + EscapeSpecialCharacters(k+": "+value+"\n") + "\"")
 		}
 	}
 
@@ -812,9 +811,9 @@ func (do *Domain) MarshalText() ([]byte, error) {
 		if trans.PluralID == "" {
 			buf.WriteString("\nmsgstr \"" + EscapeSpecialCharacters(trans.Trs[0]) + "\"")
 		} else {
-			buf.WriteString("\nmsgid_plural \"" + trans.PluralID + "\"")
+			buf.WriteString("\nmsgid_plural \"" + EscapeSpecialCharacters(trans.PluralID) + "\"")
 			for i, tr := range trans.Trs {
-				buf.WriteString("\nmsgstr[" + EscapeSpecialCharacters(strconv.Itoa(i)) + "] \"" + tr + "\"")
+				buf.WriteString("\nmsgstr[" + EscapeSpecialCharacters(strconv.Itoa(i)) + "] \"" + EscapeSpecialCharacters(tr) + "\"")
 			}
 		}
 	}
@@ -824,7 +823,8 @@ func (do *Domain) MarshalText() ([]byte, error) {
 
 // EscapeSpecialCharacters escapes special characters in a string
 func EscapeSpecialCharacters(s string) string {
-	s = regexp.MustCompile(`([^\\])(")`).ReplaceAllString(s, "$1\\\"") // Escape non-escaped double quotation marks
+	s = strings.ReplaceAll(s, `\`, `\\`) // Escape backslashes
+	s = strings.ReplaceAll(s, `"`, `\"`) // Escape double quotation marks
 
 	if strings.Count(s, "\n") == 0 {
 		return s
-- 
2.43.0


From 22bd4984d74ccbf380c517f7d2edcb6fcfc4fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 15/37] fix: export plural forms in the order of their index

They were written in the iteration order of a map, so that two exports
of the same catalogue differed.
---
 domain.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index d60328f..5396427 100644
--- a/domain.go
+++ b/domain.go
@@ -812,7 +812,13 @@ func (do *Domain) MarshalText() ([]byte, error) {
 			buf.WriteString("\nmsgstr \"" + EscapeSpecialCharacters(trans.Trs[0]) + "\"")
 		} else {
 			buf.WriteString("\nmsgid_plural \"" + EscapeSpecialCharacters(trans.PluralID) + "\"")
-			for i, tr := range trans.Trs {
+			forms := make([]int, 0, len(trans.Trs))
+			for i := range trans.Trs {
+				forms = append(forms, i)
+			}
+			sort.Ints(forms)
+			for _, i := range forms {
+				tr := trans.Trs[i]
 				buf.WriteString("\nmsgstr[" + EscapeSpecialCharacters(strconv.Itoa(i)) + "] \"" + EscapeSpecialCharacters(tr) + "\"")
 			}
 		}
-- 
2.43.0


From 33234e867ef29f48a3dfe14f7f650821c6a223ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 16/37] fix: export a message with an empty context in a fixed
 place

It compares equal to the same message without a context, and the
unstable sort left their order to the iteration order of maps.
---
 domain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index 5396427..53642db 100644
--- a/domain.go
+++ b/domain.go
@@ -771,7 +771,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 		}
 	}
 
-	sort.Slice(references, func(i, j int) bool {
+	sort.SliceStable(references, func(i, j int) bool {
 		if references[i].path < references[j].path {
 			return true
 		}
-- 
2.43.0


From d8dc3854476a118ef36eda43b05762ff17478ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 17/37] fix: decoded catalogues are as usable as parsed ones

Setters and parsers panicked on maps that were empty when encoded, a
Locale lost the plural rules of its domains, and decoding into a used
Domain kept its old rule when the new one did not compile.
---
 domain.go      | 21 +++++++++++++++++++--
 translation.go |  6 ++++++
 translator.go  |  1 +
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/domain.go b/domain.go
index 53642db..1fedc9f 100644
--- a/domain.go
+++ b/domain.go
@@ -912,9 +912,26 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 	do.translations = obj.Translations
 	do.contextTranslations = obj.Contexts
 
+	do.completeDecoding()
+
+	return nil
+}
+
+// completeDecoding sets up what a decoded domain lacks: the compiled plural rule,
+// and the maps that were empty when they were encoded
+func (do *Domain) completeDecoding() {
+	if do.Headers == nil {
+		do.Headers = make(HeaderMap)
+	}
+	if do.translations == nil {
+		do.translations = make(map[string]*Translation)
+	}
+	if do.contextTranslations == nil {
+		do.contextTranslations = make(map[string]map[string]*Translation)
+	}
+
+	do.pluralforms = nil
 	if expr, err := plurals.Compile(do.plural); err == nil {
 		do.pluralforms = expr
 	}
-
-	return nil
 }
diff --git a/translation.go b/translation.go
index 2aa42f8..ad65691 100644
--- a/translation.go
+++ b/translation.go
@@ -43,6 +43,9 @@ func (t *Translation) SetRefs(refs []string) {
 
 // Set sets the string of the translation
 func (t *Translation) Set(str string) {
+	if t.Trs == nil {
+		t.Trs = make(map[int]string)
+	}
 	t.Trs[0] = str
 	t.dirty = true
 }
@@ -62,6 +65,9 @@ func (t *Translation) Get() string {
 
 // SetN sets the string of the plural translation
 func (t *Translation) SetN(n int, str string) {
+	if t.Trs == nil {
+		t.Trs = make(map[int]string)
+	}
 	t.Trs[n] = str
 	t.dirty = true
 }
diff --git a/translator.go b/translator.go
index e32e3ab..65c1026 100644
--- a/translator.go
+++ b/translator.go
@@ -71,6 +71,7 @@ func (te *TranslatorEncoding) GetTranslator() Translator {
 	po.domain.plural = te.Plural
 	po.domain.translations = te.Translations
 	po.domain.contextTranslations = te.Contexts
+	po.domain.completeDecoding()
 
 	return po
 }
-- 
2.43.0


From dbcd188fe6d081d42a650bdc0f84317a033bc44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 18/37] fix: compile plural rules without goroutines and output

A rule rejected while its chunks were still being produced left two
goroutines blocked for ever, and an empty one was reported on stdout.
---
 plurals/compiler.go | 79 ++++++++++++---------------------------------
 1 file changed, 21 insertions(+), 58 deletions(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index c28297a..fdd4a96 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -17,11 +17,6 @@ import (
 	"strings"
 )
 
-type match struct {
-	openPos  int
-	closePos int
-}
-
 var pat = regexp.MustCompile(`(\?|:|\|\||&&|==|!=|>=|>|<=|<|%|\d+|n|\(|\))`)
 
 type testToken interface {
@@ -295,59 +290,29 @@ func splitTokens(tokens []string, sep string) (s splitted, err error) {
 	}, nil
 }
 
-// Scan a string for parenthesis
-func scan(s string) <-chan match {
-	ch := make(chan match)
-	go func() {
-		depth := 0
-		opener := 0
-		for index, char := range s {
-			switch char {
-			case '(':
-				if depth == 0 {
-					opener = index
-				}
-				depth++
-			case ')':
-				depth--
-				if depth == 0 {
-					ch <- match{
-						openPos:  opener,
-						closePos: index + 1,
-					}
-				}
+// Split the string into chunks: the parenthesised parts and the text between them
+func split(s string) []string {
+	s = strings.ReplaceAll(s, " ", "")
+	chunks := []string{}
+	depth := 0
+	last := 0
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '(':
+			if depth == 0 {
+				chunks = append(chunks, s[last:i])
+				last = i
 			}
-
-		}
-		close(ch)
-	}()
-	return ch
-}
-
-// Split the string into tokens
-func split(s string) <-chan string {
-	ch := make(chan string)
-	go func() {
-		s = strings.ReplaceAll(s, " ", "")
-		if !strings.Contains(s, "(") {
-			ch <- s
-		} else {
-			last := 0
-			end := len(s)
-			for info := range scan(s) {
-				if last != info.openPos {
-					ch <- s[last:info.openPos]
-				}
-				ch <- s[info.openPos:info.closePos]
-				last = info.closePos
-			}
-			if last != end {
-				ch <- s[last:]
+			depth++
+		case ')':
+			depth--
+			if depth == 0 {
+				chunks = append(chunks, s[last:i+1])
+				last = i + 1
 			}
 		}
-		close(ch)
-	}()
-	return ch
+	}
+	return append(chunks, s[last:])
 }
 
 // Tokenizes a string into a list of strings, tokens grouped by parenthesis are
@@ -366,7 +331,7 @@ func tokenize(s string) ([]string, error) {
 		s = s[1 : len(s)-1]
 	}
 	ret := []string{}
-	for chunk := range split(s) {
+	for _, chunk := range split(s) {
 		if len(chunk) != 0 {
 			if chunk[0] == '(' && chunk[len(chunk)-1] == ')' {
 				ret = append(ret, chunk)
@@ -382,8 +347,6 @@ func tokenize(s string) ([]string, error) {
 					return nil, fmt.Errorf("invalid character in expression chunk: %s", chunk)
 				}
 			}
-		} else {
-			fmt.Printf("Empty chunk in string '%s'\n", s)
 		}
 	}
 	return ret, nil
-- 
2.43.0


From c2ab9bd280c67b97d54e0cbdb28d4cd107c5ae2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 19/37] fix: accept plural rules that start and end with
 separate parentheses

(n==1)||(n==5) lost its first and last parenthesis and was rejected.
---
 plurals/compiler.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index fdd4a96..06f0519 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -315,19 +315,33 @@ func split(s string) []string {
 	return append(chunks, s[last:])
 }
 
+// Check if a string starts with a ( and ends with a ) that form a matching pair.
+//
+// Eg: (foo) -> true; (foo)(bar) -> false;
+func enclosed(s string) bool {
+	depth := 0
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '(':
+			depth++
+		case ')':
+			depth--
+		}
+		if depth <= 0 {
+			return i == len(s)-1 && s[i] == ')'
+		}
+	}
+	return false
+}
+
 // Tokenizes a string into a list of strings, tokens grouped by parenthesis are
-// not split! If the string starts with ( and ends in ), those are stripped.
+// not split! If the string starts with ( and ends in the matching ), those are
+// stripped.
 func tokenize(s string) ([]string, error) {
-	/*
-		TODO: Properly detect if the string starts with a ( and ends with a )
-		and that those two form a matching pair.
-
-		Eg: (foo) -> true; (foo)(bar) -> false;
-	*/
 	if len(s) == 0 {
 		return []string{}, nil
 	}
-	if s[0] == '(' && s[len(s)-1] == ')' {
+	if len(s) > 1 && enclosed(s) {
 		s = s[1 : len(s)-1]
 	}
 	ret := []string{}
-- 
2.43.0


From d1561a4036e2d93658a2f0727f008a5d550886f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 20/37] fix: reject a plural rule whose last branch does not
 compile

The error was dropped, and numbers that reached the missing branch got
the plural form -1, for which there is no translation.
---
 plurals/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 06f0519..ea4f2a2 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -49,7 +49,7 @@ func (ternaryStruct) compile(tokens []string) (expr Expression, err error) {
 	}
 	falseAction, err := compileExpression(strings.Join(actions.Right, ""))
 	if err != nil {
-		return expr, nil
+		return expr, err
 	}
 	return ternary{
 		test:      test,
-- 
2.43.0


From c15e7a2856a8d1af52b0ebcd4ea35d475a5c3f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 21/37] fix: reject a plural rule that divides by zero

n%0 compiled, and every plural lookup panicked.
---
 plurals/compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index ea4f2a2..f4f808d 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -129,6 +129,9 @@ func compileMod(tokens []string) (math math, err error) {
 	if err != nil {
 		return math, err
 	}
+	if i == 0 {
+		return math, errors.New("modulus operation requires a non-zero right operand")
+	}
 	return mod{value: uint32(i)}, nil
 }
 
-- 
2.43.0


From 1f450319ad4ccd112703769728ceb62da3122ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 22/37] fix: allow blanks around the values in Plural-Forms

'nplurals = 1; plural = 0' set neither value.
---
 domain.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain.go b/domain.go
index 1fedc9f..76687e6 100644
--- a/domain.go
+++ b/domain.go
@@ -182,10 +182,10 @@ func (do *Domain) parseHeaders() {
 
 		switch strings.TrimSpace(vs[0]) {
 		case "nplurals":
-			do.nplurals, _ = strconv.Atoi(vs[1])
+			do.nplurals, _ = strconv.Atoi(strings.TrimSpace(vs[1]))
 
 		case "plural":
-			do.plural = vs[1]
+			do.plural = strings.TrimSpace(vs[1])
 
 			if expr, err := plurals.Compile(do.plural); err == nil {
 				do.pluralforms = expr
-- 
2.43.0


From 3c50a58e8f968f5cfac41b0369fb1385f7c85b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 23/37] fix: do not store an empty message for every msgctxt
 line

Each context got an entry with an empty id, and a message with a context
and an empty id passed its context on to the following message.
---
 po.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/po.go b/po.go
index 8b00825..d6b8736 100644
--- a/po.go
+++ b/po.go
@@ -235,14 +235,14 @@ func (po *Po) Parse(buf []byte) {
 
 		// Buffer context and continue
 		if strings.HasPrefix(l, "msgctxt") {
-			po.parseContext(l)
+			po.parseContext(l, state)
 			state = msgCtxt
 			continue
 		}
 
 		// Buffer msgid and continue
 		if strings.HasPrefix(l, "msgid") && !strings.HasPrefix(l, "msgid_plural") {
-			po.parseID(l)
+			po.parseID(l, state)
 			state = msgID
 			continue
 		}
@@ -295,10 +295,8 @@ func (po *Po) saveBuffer() {
 		}
 		po.domain.contextTranslations[po.domain.ctxBuffer][po.domain.trBuffer.ID] = po.domain.trBuffer
 
-		// Cleanup current context buffer if needed
-		if po.domain.trBuffer.ID != "" {
-			po.domain.ctxBuffer = ""
-		}
+		// Cleanup current context buffer
+		po.domain.ctxBuffer = ""
 	}
 
 	// Flush Translation buffer
@@ -328,9 +326,11 @@ func (po *Po) parseComment(l string, state parseState) {
 
 // parseContext takes a line starting with "msgctxt",
 // saves the current Translation buffer and creates a new context.
-func (po *Po) parseContext(l string) {
+func (po *Po) parseContext(l string, state parseState) {
 	// Save current Translation buffer.
-	po.saveBuffer()
+	if state != msgCtxt {
+		po.saveBuffer()
+	}
 
 	// Buffer context
 	po.domain.ctxBuffer, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgctxt")))
@@ -338,9 +338,11 @@ func (po *Po) parseContext(l string) {
 
 // parseID takes a line starting with "msgid",
 // saves the current Translation and creates a new msgid buffer.
-func (po *Po) parseID(l string) {
-	// Save current Translation buffer.
-	po.saveBuffer()
+func (po *Po) parseID(l string, state parseState) {
+	// Save current Translation buffer, unless its context has just done so.
+	if state != msgCtxt {
+		po.saveBuffer()
+	}
 
 	// Set id
 	po.domain.trBuffer.ID, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid")))
-- 
2.43.0


From 620e0b1616371ef36db52e51303e04a5d54124e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 24/37] fix: give each message exactly its own source
 references

References were passed on to all following messages without any, and of
several '#:' lines only the last one was kept.
---
 po.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/po.go b/po.go
index d6b8736..bc72b32 100644
--- a/po.go
+++ b/po.go
@@ -300,11 +300,7 @@ func (po *Po) saveBuffer() {
 	}
 
 	// Flush Translation buffer
-	if po.domain.refBuffer == "" {
-		po.domain.trBuffer = NewTranslation()
-	} else {
-		po.domain.trBuffer = NewTranslationWithRefs(strings.Split(po.domain.refBuffer, " "))
-	}
+	po.domain.trBuffer = NewTranslation()
 }
 
 // Either preserves comments before the first "msgid", for later round-trip.
@@ -317,7 +313,7 @@ func (po *Po) parseComment(l string, state parseState) {
 			switch l[1] {
 			case ':':
 				if len(l) > 2 {
-					po.domain.refBuffer = strings.TrimSpace(l[2:])
+					po.domain.refBuffer = strings.TrimSpace(po.domain.refBuffer + " " + l[2:])
 				}
 			}
 		}
@@ -344,6 +340,12 @@ func (po *Po) parseID(l string, state parseState) {
 		po.saveBuffer()
 	}
 
+	// Set references
+	if po.domain.refBuffer != "" {
+		po.domain.trBuffer.Refs = strings.Fields(po.domain.refBuffer)
+		po.domain.refBuffer = ""
+	}
+
 	// Set id
 	po.domain.trBuffer.ID, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid")))
 }
-- 
2.43.0


From ffb9c5612f5bc3e1c3baab9fb3a5a2f6658d4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 25/37] fix: append continuation lines to the plural form they
 follow

They went to the form numbered one less than the count of forms seen,
which is another one when forms are missing or not in order.
---
 domain.go |  7 ++++---
 po.go     | 10 ++++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/domain.go b/domain.go
index 76687e6..3b68e73 100644
--- a/domain.go
+++ b/domain.go
@@ -41,9 +41,10 @@ type Domain struct {
 	pluralMutex sync.RWMutex
 
 	// Parsing buffers
-	trBuffer  *Translation
-	ctxBuffer string
-	refBuffer string
+	trBuffer   *Translation
+	ctxBuffer  string
+	refBuffer  string
+	formBuffer int
 
 	customPluralResolver func(int) int
 }
diff --git a/po.go b/po.go
index bc72b32..7f5f59a 100644
--- a/po.go
+++ b/po.go
@@ -357,6 +357,8 @@ func (po *Po) parsePluralID(l string) {
 
 // parseMessage takes a line starting with "msgstr" and saves it into the current buffer.
 func (po *Po) parseMessage(l string) {
+	po.domain.formBuffer = -1
+
 	l = strings.TrimSpace(strings.TrimPrefix(l, "msgstr"))
 
 	// Check for indexed Translation forms
@@ -369,12 +371,13 @@ func (po *Po) parseMessage(l string) {
 
 		// Parse index
 		i, err := strconv.Atoi(l[1:idx])
-		if err != nil {
+		if err != nil || i < 0 {
 			// Skip wrong index formatting
 			return
 		}
 
 		// Parse Translation string
+		po.domain.formBuffer = i
 		po.domain.trBuffer.Trs[i], _ = strconv.Unquote(strings.TrimSpace(l[idx+1:]))
 
 		// Loop
@@ -382,6 +385,7 @@ func (po *Po) parseMessage(l string) {
 	}
 
 	// Save single Translation form under 0 index
+	po.domain.formBuffer = 0
 	po.domain.trBuffer.Trs[0], _ = strconv.Unquote(l)
 }
 
@@ -393,7 +397,9 @@ func (po *Po) parseString(l string, state parseState) {
 	switch state {
 	case msgStr:
 		// Append to last Translation found
-		po.domain.trBuffer.Trs[len(po.domain.trBuffer.Trs)-1] += clean
+		if po.domain.formBuffer >= 0 {
+			po.domain.trBuffer.Trs[po.domain.formBuffer] += clean
+		}
 
 	case msgID:
 		// Multiline msgid - Append to current id
-- 
2.43.0


From 9b4dc203b0daeaa24256007f8f23a3a9955ffcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 26/37] fix: xgotext skips calls whose domain is not a string
 literal

It dereferenced a nil literal and crashed, as it did not check the
domain as it does the other arguments.
---
 cli/xgotext/parser/gofile.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 9e93dbc..476a2ae 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -155,6 +155,11 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 	// get domain
 	var domain string
 	if def.Domain != -1 {
+		// Domain must be a string
+		if args[def.Domain] == nil || args[def.Domain].Kind != token.STRING {
+			log.Printf("ERR: Unsupported call at %s (Domain not a string)", pos)
+			return
+		}
 		domain, _ = strconv.Unquote(args[def.Domain].Value)
 	}
 
-- 
2.43.0


From 39fa7f53f7d6b2d8fdee310b8a5d46e5fbf7fa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 27/37] fix: xgotext writes contexts as PO strings

The Go literal was copied verbatim, so that a raw string or one with Go
escapes gave an invalid or different msgctxt, and the same context
spelled in two ways was taken for two.
---
 cli/xgotext/parser/gofile.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 476a2ae..72c0cd4 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -189,7 +189,8 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 			log.Printf("ERR: Unsupported call at %s (Context not a string)", pos)
 			return
 		}
-		trans.Context = args[def.Context].Value
+		context, _ := strconv.Unquote(args[def.Context].Value)
+		trans.Context = formatMultiline(fixSpecialChars(context))
 	}
 
 	g.Data.AddTranslation(domain, &trans)
-- 
2.43.0


From 7128e7d74af3323b64db68ae260cef427d15bb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 28/37] fix: xgotext keeps the plural of a message first used
 without one

The message was written as a singular one, and the plural lookups could
not be translated.
---
 cli/xgotext/parser/domain.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cli/xgotext/parser/domain.go b/cli/xgotext/parser/domain.go
index 35146ad..1699ba7 100644
--- a/cli/xgotext/parser/domain.go
+++ b/cli/xgotext/parser/domain.go
@@ -25,6 +25,14 @@ func (t *Translation) AddLocations(locations []string) {
 	}
 }
 
+// merge another use of the same message into the translation
+func (t *Translation) merge(other *Translation) {
+	if t.MsgIDPlural == "" {
+		t.MsgIDPlural = other.MsgIDPlural
+	}
+	t.AddLocations(other.SourceLocations)
+}
+
 // Dump translation as string
 func (t *Translation) Dump() string {
 	data := make([]string, 0, len(t.SourceLocations)+5)
@@ -130,7 +138,7 @@ func (d *Domain) AddTranslation(translation *Translation) {
 
 	if translation.Context == "" {
 		if t, ok := d.Translations[translation.MsgID]; ok {
-			t.AddLocations(translation.SourceLocations)
+			t.merge(translation)
 		} else {
 			d.Translations[translation.MsgID] = translation
 		}
@@ -140,7 +148,7 @@ func (d *Domain) AddTranslation(translation *Translation) {
 		}
 
 		if t, ok := d.ContextTranslations[translation.Context][translation.MsgID]; ok {
-			t.AddLocations(translation.SourceLocations)
+			t.merge(translation)
 		} else {
 			d.ContextTranslations[translation.Context][translation.MsgID] = translation
 		}
-- 
2.43.0


From edfd12ab1fe96229ebbe47a89ae289fbdde0d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 29/37] fix: xgotext does not crash when no package is found

---
 cli/xgotext/parser/dir/golang.go      | 3 ++-
 cli/xgotext/parser/pkg-tree/golang.go | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/dir/golang.go b/cli/xgotext/parser/dir/golang.go
index ec924ee..5e7a4db 100644
--- a/cli/xgotext/parser/dir/golang.go
+++ b/cli/xgotext/parser/dir/golang.go
@@ -1,6 +1,7 @@
 package dir
 
 import (
+	"fmt"
 	"go/ast"
 	"go/token"
 	"log"
@@ -74,7 +75,7 @@ func (g *GoFile) GetPackage(name string) (*packages.Package, error) {
 		return nil, err
 	}
 	if len(pkgs) == 0 {
-		return nil, nil
+		return nil, fmt.Errorf("not found")
 	}
 	return pkgs[0], nil
 }
diff --git a/cli/xgotext/parser/pkg-tree/golang.go b/cli/xgotext/parser/pkg-tree/golang.go
index d66e351..d5e632a 100644
--- a/cli/xgotext/parser/pkg-tree/golang.go
+++ b/cli/xgotext/parser/pkg-tree/golang.go
@@ -72,6 +72,9 @@ func loadPackage(name string) (*packages.Package, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(pkgs) == 0 {
+		return nil, fmt.Errorf("no package found in %s", name)
+	}
 
 	return pkgs[0], nil
 }
-- 
2.43.0


From d80d3d8c3abf75db14f1e2993429959a3439923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 30/37] fix: xgotext excludes only the given directories

-exclude pkg also skipped pkgutil, the default skipped .github, and
an empty list skipped everything.
---
 cli/xgotext/parser/dir/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/dir/parser.go b/cli/xgotext/parser/dir/parser.go
index 9f92c27..2125c01 100644
--- a/cli/xgotext/parser/dir/parser.go
+++ b/cli/xgotext/parser/dir/parser.go
@@ -50,7 +50,11 @@ func ParseDirRec(dirPath string, exclude []string, data *parser.DomainMap, verbo
 			// skip directory if in exclude list
 			subDir, _ := filepath.Rel(dirPath, path)
 			for _, d := range exclude {
-				if strings.HasPrefix(subDir, d) {
+				if d == "" {
+					continue
+				}
+				d = filepath.Clean(d)
+				if subDir == d || strings.HasPrefix(subDir, d+string(filepath.Separator)) {
 					return nil
 				}
 			}
-- 
2.43.0


From 52c47093128d138ecf07072b528096b63445e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 31/37] fix: xgotext -pkg-tree visits packages in a fixed order

Which of several plurals of a message was written depended on the
iteration order of a map.
---
 cli/xgotext/parser/pkg-tree/golang.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/pkg-tree/golang.go b/cli/xgotext/parser/pkg-tree/golang.go
index d5e632a..95288ad 100644
--- a/cli/xgotext/parser/pkg-tree/golang.go
+++ b/cli/xgotext/parser/pkg-tree/golang.go
@@ -6,6 +6,7 @@ import (
 	"go/token"
 	"log"
 	"os"
+	"sort"
 	"strconv"
 
 	"golang.org/x/tools/go/packages"
@@ -87,7 +88,16 @@ func filterPkgs(pkg *packages.Package) []*packages.Package {
 func filterPkgsRec(pkg *packages.Package) []*packages.Package {
 	result := make([]*packages.Package, 0, 100)
 	pkgCache[pkg.ID] = pkg
-	for _, importedPkg := range pkg.Imports {
+
+	// visit the imports in a fixed order for consistent output
+	paths := make([]string, 0, len(pkg.Imports))
+	for path := range pkg.Imports {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+
+	for _, path := range paths {
+		importedPkg := pkg.Imports[path]
 		if importedPkg.ID == "github.com/leonelquinteros/gotext" {
 			result = append(result, pkg)
 		}
-- 
2.43.0


From 864a56e0ca28746369e2815fba2ad421e3650ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 32/37] fix: xgotext reports an error when closing a file it
 has written

---
 cli/xgotext/parser/domain.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/xgotext/parser/domain.go b/cli/xgotext/parser/domain.go
index 1699ba7..7133703 100644
--- a/cli/xgotext/parser/domain.go
+++ b/cli/xgotext/parser/domain.go
@@ -174,13 +174,15 @@ func (d *Domain) Dump() string {
 }
 
 // Save domain to file
-func (d *Domain) Save(path string) error {
+func (d *Domain) Save(path string) (err error) {
 	file, err := os.Create(path)
 	if err != nil {
 		return fmt.Errorf("failed to domain: %v", err)
 	}
 	defer func() {
-		_ = file.Close()
+		if closeErr := file.Close(); err == nil {
+			err = closeErr
+		}
 	}()
 
 	// write header
-- 
2.43.0


From 5282e40a062741c287ba0523c2c8cdc6a8de2383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 33/37] fix: xgotext extracts messages looked up with Append
 functions

---
 cli/xgotext/parser/gofile.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 72c0cd4..76a020e 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -35,6 +35,11 @@ var gotextGetter = map[string]GetterDef{
 	"GetNC":  {0, 1, 3, -1},
 	"GetDC":  {1, -1, 2, 0},
 	"GetNDC": {1, 2, 4, 0},
+
+	"Append":   {1, -1, -1, -1},
+	"AppendN":  {1, 2, -1, -1},
+	"AppendC":  {1, -1, 2, -1},
+	"AppendNC": {1, 2, 4, -1},
 }
 
 // GoFile handles the parsing of one go file
-- 
2.43.0


From 7507503c71fbb21cf20f270354f7134b87042d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 34/37] fix: a Locale is unchanged when decoding one of its
 domains fails

---
 locale.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/locale.go b/locale.go
index a9bfa41..940ee77 100644
--- a/locale.go
+++ b/locale.go
@@ -507,15 +507,8 @@ func (l *Locale) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
-	l.Lock()
-	defer l.Unlock()
-
-	l.defaultDomain = obj.DefaultDomain
-	l.lang = obj.Lang
-	l.path = obj.Path
-
 	// Decode Domains
-	l.Domains = make(map[string]Translator)
+	domains := make(map[string]Translator)
 	for k, v := range obj.Domains {
 		var tr TranslatorEncoding
 		buff := bytes.NewBuffer(v)
@@ -525,8 +518,16 @@ func (l *Locale) UnmarshalBinary(data []byte) error {
 			return err
 		}
 
-		l.Domains[k] = tr.GetTranslator()
+		domains[k] = tr.GetTranslator()
 	}
 
+	l.Lock()
+	defer l.Unlock()
+
+	l.defaultDomain = obj.DefaultDomain
+	l.lang = obj.Lang
+	l.path = obj.Path
+	l.Domains = domains
+
 	return nil
 }
-- 
2.43.0


From 5ef7f18263a176ef076162b370667dcce78c0855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:14 +0000
Subject: [PATCH 35/37] fix: scan all imported packages on every ParsePkgTree
 call, not only on the first

---
 cli/xgotext/parser/pkg-tree/golang.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cli/xgotext/parser/pkg-tree/golang.go b/cli/xgotext/parser/pkg-tree/golang.go
index 95288ad..6b28278 100644
--- a/cli/xgotext/parser/pkg-tree/golang.go
+++ b/cli/xgotext/parser/pkg-tree/golang.go
@@ -81,13 +81,14 @@ func loadPackage(name string) (*packages.Package, error) {
 }
 
 func filterPkgs(pkg *packages.Package) []*packages.Package {
-	result := filterPkgsRec(pkg)
+	result := filterPkgsRec(pkg, make(map[string]bool))
 	return result
 }
 
-func filterPkgsRec(pkg *packages.Package) []*packages.Package {
+func filterPkgsRec(pkg *packages.Package, visited map[string]bool) []*packages.Package {
 	result := make([]*packages.Package, 0, 100)
 	pkgCache[pkg.ID] = pkg
+	visited[pkg.ID] = true
 
 	// visit the imports in a fixed order for consistent output
 	paths := make([]string, 0, len(pkg.Imports))
@@ -101,10 +102,10 @@ func filterPkgsRec(pkg *packages.Package) []*packages.Package {
 		if importedPkg.ID == "github.com/leonelquinteros/gotext" {
 			result = append(result, pkg)
 		}
-		if _, ok := pkgCache[importedPkg.ID]; ok {
+		if visited[importedPkg.ID] {
 			continue
 		}
-		result = append(result, filterPkgsRec(importedPkg)...)
+		result = append(result, filterPkgsRec(importedPkg, visited)...)
 	}
 	return result
 }
-- 
2.43.0


From e3ac2d4e77d44a820f77e961a13f3336d362e100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:33 +0000
Subject: [PATCH 36/37] fix: keep a file's own package when it imports one of
 the same name

---
 cli/xgotext/parser/dir/golang.go      | 2 +-
 cli/xgotext/parser/gofile.go          | 4 ++++
 cli/xgotext/parser/pkg-tree/golang.go | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/xgotext/parser/dir/golang.go b/cli/xgotext/parser/dir/golang.go
index 5e7a4db..e05c7d9 100644
--- a/cli/xgotext/parser/dir/golang.go
+++ b/cli/xgotext/parser/dir/golang.go
@@ -53,7 +53,7 @@ func goParser(dirPath, basePath string, data *parser.DomainMap) error {
 				FileSet:  fileSet,
 
 				ImportedPackages: map[string]*packages.Package{
-					pkgs[0].Name: pkgs[0],
+					parser.OwnPackage: pkgs[0],
 				},
 			},
 		}
diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 76a020e..e24c87c 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -42,6 +42,10 @@ var gotextGetter = map[string]GetterDef{
 	"AppendNC": {1, 2, 4, -1},
 }
 
+// OwnPackage is the name under which ImportedPackages holds the package of the file itself.
+// It is not an identifier, so that no import of the file can take its place.
+const OwnPackage = "(own package)"
+
 // GoFile handles the parsing of one go file
 type GoFile struct {
 	FilePath string
diff --git a/cli/xgotext/parser/pkg-tree/golang.go b/cli/xgotext/parser/pkg-tree/golang.go
index 6b28278..dd12ba1 100644
--- a/cli/xgotext/parser/pkg-tree/golang.go
+++ b/cli/xgotext/parser/pkg-tree/golang.go
@@ -42,7 +42,7 @@ func pkgParser(dirPath, basePath string, data *parser.DomainMap, verbose bool) e
 					FileSet:  pkg.Fset,
 
 					ImportedPackages: map[string]*packages.Package{
-						pkg.Name: pkg,
+						parser.OwnPackage: pkg,
 					},
 				},
 			}
-- 
2.43.0


From b0fd5e97825e69f13654c44735f00e55c49abee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:03 +0000
Subject: [PATCH 37/37] fix: MarshalText loses entries with a context and an
 empty id

---
 domain.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/domain.go b/domain.go
index 3b68e73..64a9559 100644
--- a/domain.go
+++ b/domain.go
@@ -726,10 +726,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 	// Just as with headers, output translations in consistent order (to minimise diffs between round-trips), with (first) source reference taking priority, followed by context and finally ID
 	references := make([]SourceReference, 0)
 	for name, ctx := range do.contextTranslations {
-		for id, trans := range ctx {
-			if id == "" {
-				continue
-			}
+		for _, trans := range ctx {
 			if len(trans.Refs) > 0 {
 				path, line := extractPathAndLine(trans.Refs[0])
 				references = append(references, SourceReference{
-- 
2.43.0


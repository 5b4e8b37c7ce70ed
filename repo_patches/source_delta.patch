From 2abc7906773d4709fdb079df4cfa33a8d0a51675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:34 +0000
Subject: [PATCH 01/34] fix: reject ill-sized encrypted blobs instead of
 panicking

---
 1pass-core/core/domain/error.go       |  1 +
 1pass-core/core/service/keyservice.go | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/1pass-core/core/domain/error.go b/1pass-core/core/domain/error.go
index d629915..accf65b 100644
--- a/1pass-core/core/domain/error.go
+++ b/1pass-core/core/domain/error.go
@@ -11,6 +11,7 @@ import (
 var (
 	ErrInvalidMd5      = errors.New("invalid MD5 checksum")
 	ErrInvalidHmac     = errors.New("invalid HMAC")
+	ErrInvalidOpdata   = errors.New("invalid opdata")
 	ErrInvalidPass     = errors.New("invalid password")
 	ErrInvalidVault    = errors.New("invalid vault (%v)")
 	ErrNoUpdate        = errors.New("up to date")
diff --git a/1pass-core/core/service/keyservice.go b/1pass-core/core/service/keyservice.go
index 7bc3702..b9f7f50 100644
--- a/1pass-core/core/service/keyservice.go
+++ b/1pass-core/core/service/keyservice.go
@@ -19,6 +19,13 @@ import (
 	"github.com/mashmb/1pass/1pass-core/port/out"
 )
 
+const (
+	macSize          int = sha256.Size
+	opdataHeaderSize int = 32
+	opdataMinSize    int = opdataHeaderSize + macSize
+	itemKeysSize     int = aes.BlockSize + 64 + macSize
+)
+
 type dfltKeyService struct {
 	cryptoUtils out.CrytpoUtils
 	profileRepo out.ProfileRepo
@@ -84,6 +91,10 @@ func (s *dfltKeyService) DecodeKeys(key, derivedKey, derivedMac []byte) ([]byte,
 }
 
 func (s *dfltKeyService) DecodeOpdata(cipherText, key, macKey []byte) ([]byte, error) {
+	if len(cipherText) < opdataMinSize || (len(cipherText)-opdataMinSize)%aes.BlockSize != 0 {
+		return nil, domain.ErrInvalidOpdata
+	}
+
 	data, mac := cipherText[:len(cipherText)-32], cipherText[len(cipherText)-32:]
 
 	if err := s.CheckHmac(data, macKey, mac); err != nil {
@@ -97,6 +108,10 @@ func (s *dfltKeyService) DecodeOpdata(cipherText, key, macKey []byte) ([]byte, e
 		return nil, err
 	}
 
+	if plainSize < 0 || plainSize > int64(len(data)-opdataHeaderSize) {
+		return nil, domain.ErrInvalidOpdata
+	}
+
 	plain, err := s.DecodeData(key, data[16:32], data[32:])
 
 	if err != nil {
@@ -121,6 +136,11 @@ func (s *dfltKeyService) DerivedKeys(password string) ([]byte, []byte, error) {
 
 func (s *dfltKeyService) ItemKeys(item *domain.RawItem, keys *domain.Keys) ([]byte, []byte) {
 	itemKeys, _ := base64.StdEncoding.DecodeString(item.Keys)
+
+	if len(itemKeys) != itemKeysSize {
+		return nil, nil
+	}
+
 	data := itemKeys[:len(itemKeys)-32]
 	plain, _ := s.DecodeData(keys.MasterKey, data[0:16], data[16:])
 
-- 
2.43.0


From c3cd93ad8246d81c8c2d837344bf71343bb5281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:57 +0000
Subject: [PATCH 02/34] fix: load every band on its own so that an empty band
 does not break the vault

---
 1pass-parse/repo/file/itemrepo.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 9f73385..74a1530 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -86,7 +86,7 @@ func (repo *fileItemRepo) FindFirstByUidAndTrashed(uid string, trashed bool) *do
 
 func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 	items := make([]*domain.RawItem, 0)
-	var itemsJson map[string]interface{}
+	itemsJson := make(map[string]interface{})
 	bandFiles, err := filepath.Glob(filepath.Join(vault.Path, domain.ProfileDir, domain.BandFilePattern))
 
 	if err != nil {
@@ -94,8 +94,6 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 	}
 
 	if len(bandFiles) != 0 {
-		itemsFile := "{"
-
 		for _, bandFile := range bandFiles {
 			file, err := ioutil.ReadFile(bandFile)
 
@@ -103,13 +101,9 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 				log.Fatalln(err)
 			}
 
-			itemsFile = itemsFile + string(file[4:len(file)-3]) + ","
-		}
-
-		itemsFile = itemsFile[:len(itemsFile)-1] + "}"
-
-		if err := json.Unmarshal([]byte(itemsFile), &itemsJson); err != nil {
-			log.Fatalln(err)
+			if err := json.Unmarshal(file[3:len(file)-2], &itemsJson); err != nil {
+				log.Fatalln(err)
+			}
 		}
 
 		for uid, value := range itemsJson {
-- 
2.43.0


From b95808f36f5c0c24c380207b9b5ce5c13427df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:50 +0000
Subject: [PATCH 03/34] fix: find band files when the vault path contains
 pattern characters

---
 1pass-parse/repo/file/itemrepo.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 74a1530..975696f 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -84,10 +84,33 @@ func (repo *fileItemRepo) FindFirstByUidAndTrashed(uid string, trashed bool) *do
 	return result
 }
 
+func (repo *fileItemRepo) findBandFiles(profileDir string) ([]string, error) {
+	bandFiles := make([]string, 0)
+	files, err := ioutil.ReadDir(profileDir)
+
+	if err != nil {
+		return nil, err
+	}
+
+	for _, file := range files {
+		matched, err := filepath.Match(domain.BandFilePattern, file.Name())
+
+		if err != nil {
+			return nil, err
+		}
+
+		if matched {
+			bandFiles = append(bandFiles, filepath.Join(profileDir, file.Name()))
+		}
+	}
+
+	return bandFiles, nil
+}
+
 func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 	items := make([]*domain.RawItem, 0)
 	itemsJson := make(map[string]interface{})
-	bandFiles, err := filepath.Glob(filepath.Join(vault.Path, domain.ProfileDir, domain.BandFilePattern))
+	bandFiles, err := repo.findBandFiles(filepath.Join(vault.Path, domain.ProfileDir))
 
 	if err != nil {
 		log.Fatalln(err)
-- 
2.43.0


From ebfbe843a4f65f42dbb3d91150d0ccaa1e9b7904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:22 +0000
Subject: [PATCH 04/34] fix: show login form fields of items that also have
 sections

---
 1pass-core/core/service/itemservice.go | 28 +++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 037ef49..a178295 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -57,25 +57,25 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 			detailsJson := s.DecodeDetails(encoded, keys)
 			sections := make([]*domain.ItemSection, 0)
 
-			if detailsJson["sections"] == nil {
-				if detailsJson["fields"] != nil {
-					fieldsJson := detailsJson["fields"].([]interface{})
-					fields := make([]*domain.ItemField, 0)
+			if detailsJson["fields"] != nil {
+				fieldsJson := detailsJson["fields"].([]interface{})
+				fields := make([]*domain.ItemField, 0)
 
-					for _, fieldJson := range fieldsJson {
-						field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
+				for _, fieldJson := range fieldsJson {
+					field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
 
-						if field != nil {
-							fields = append(fields, field)
-						}
+					if field != nil {
+						fields = append(fields, field)
 					}
+				}
 
-					if len(fields) != 0 {
-						section := domain.NewItemSection("", fields)
-						sections = append(sections, section)
-					}
+				if len(fields) != 0 {
+					section := domain.NewItemSection("", fields)
+					sections = append(sections, section)
 				}
-			} else {
+			}
+
+			if detailsJson["sections"] != nil {
 				sectionsJson := detailsJson["sections"].([]interface{})
 
 				for _, sectionJson := range sectionsJson {
-- 
2.43.0


From 679daeca8817e8115b9040b439c3023df79ce22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:11 +0000
Subject: [PATCH 05/34] fix: show date fields that are stored as numbers

---
 1pass-core/core/service/itemservice.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index a178295..a2c469f 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/mashmb/1pass/1pass-core/core/domain"
@@ -171,7 +172,13 @@ func (s *dfltItemService) ParseItemField(fromSection bool, data map[string]inter
 				if dataType == domain.DataTypeEnum.Address {
 					value = domain.DataTypeEnum.ParseValue(dataType, "", data["v"].(map[string]interface{}))
 				} else {
-					value = domain.DataTypeEnum.ParseValue(dataType, fmt.Sprint(data["v"]), nil)
+					value = fmt.Sprint(data["v"])
+
+					if number, ok := data["v"].(float64); ok {
+						value = strconv.FormatInt(int64(number), 10)
+					}
+
+					value = domain.DataTypeEnum.ParseValue(dataType, value, nil)
 				}
 			}
 
-- 
2.43.0


From 175db52a87b25dfd54faee2328bb81f1214e4de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:59 +0000
Subject: [PATCH 06/34] fix: report a malformed vault profile instead of
 panicking

---
 1pass-core/core/domain/error.go      |  1 +
 1pass-parse/repo/file/profilerepo.go | 29 +++++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/1pass-core/core/domain/error.go b/1pass-core/core/domain/error.go
index accf65b..66402b9 100644
--- a/1pass-core/core/domain/error.go
+++ b/1pass-core/core/domain/error.go
@@ -13,6 +13,7 @@ var (
 	ErrInvalidHmac     = errors.New("invalid HMAC")
 	ErrInvalidOpdata   = errors.New("invalid opdata")
 	ErrInvalidPass     = errors.New("invalid password")
+	ErrInvalidProfile  = errors.New("invalid vault profile")
 	ErrInvalidVault    = errors.New("invalid vault (%v)")
 	ErrNoUpdate        = errors.New("up to date")
 	ErrUnknownDataType = errors.New("unknown data type")
diff --git a/1pass-parse/repo/file/profilerepo.go b/1pass-parse/repo/file/profilerepo.go
index aaa052e..b7cb22a 100644
--- a/1pass-parse/repo/file/profilerepo.go
+++ b/1pass-parse/repo/file/profilerepo.go
@@ -13,6 +13,11 @@ import (
 	"github.com/mashmb/1pass/1pass-core/core/domain"
 )
 
+const (
+	profilePrefix string = "var profile="
+	profileSuffix string = ";"
+)
+
 type fileProfileRepo struct {
 	profileJson map[string]interface{}
 }
@@ -45,8 +50,30 @@ func (repo *fileProfileRepo) LoadProfile(vault *domain.Vault) {
 			log.Fatalln(err)
 		}
 
-		if err := json.Unmarshal(file[12:len(file)-1], &repo.profileJson); err != nil {
+		if len(file) < len(profilePrefix)+len(profileSuffix) {
+			log.Fatalln(domain.ErrInvalidProfile)
+		}
+
+		if err := json.Unmarshal(file[len(profilePrefix):len(file)-len(profileSuffix)], &repo.profileJson); err != nil {
+			log.Fatalln(err)
+		}
+
+		if err := repo.checkProfile(); err != nil {
 			log.Fatalln(err)
 		}
 	}
 }
+
+func (repo *fileProfileRepo) checkProfile() error {
+	if _, ok := repo.profileJson["iterations"].(float64); !ok {
+		return domain.ErrInvalidProfile
+	}
+
+	for _, key := range []string{"masterKey", "overviewKey", "salt"} {
+		if _, ok := repo.profileJson[key].(string); !ok {
+			return domain.ErrInvalidProfile
+		}
+	}
+
+	return nil
+}
-- 
2.43.0


From 346d04e6bdc968f3b3b7df6ae2aa71752b1f7cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:48 +0000
Subject: [PATCH 07/34] fix: tolerate unexpectedly shaped item content instead
 of panicking

---
 1pass-core/core/domain/datatype.go     |  3 +-
 1pass-core/core/service/itemservice.go | 80 +++++++++++---------------
 2 files changed, 34 insertions(+), 49 deletions(-)

diff --git a/1pass-core/core/domain/datatype.go b/1pass-core/core/domain/datatype.go
index 41d1602..975eb26 100644
--- a/1pass-core/core/domain/datatype.go
+++ b/1pass-core/core/domain/datatype.go
@@ -83,8 +83,7 @@ func (r *dataTypeRegistry) parseAddress(jsonValue map[string]interface{}) string
 	sort.Strings(keys)
 
 	for _, key := range keys {
-		val := jsonValue[key].(string)
-		val = strings.TrimSpace(val)
+		val := strings.TrimSpace(fmt.Sprint(jsonValue[key]))
 		val = strings.ReplaceAll(val, "\n", " ")
 		formatted := fmt.Sprintf("\n  %v: %v", key, val)
 		parsed = parsed + formatted
diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index a2c469f..7d3ca66 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -58,12 +58,12 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 			detailsJson := s.DecodeDetails(encoded, keys)
 			sections := make([]*domain.ItemSection, 0)
 
-			if detailsJson["fields"] != nil {
-				fieldsJson := detailsJson["fields"].([]interface{})
+			if fieldsJson, ok := detailsJson["fields"].([]interface{}); ok {
 				fields := make([]*domain.ItemField, 0)
 
 				for _, fieldJson := range fieldsJson {
-					field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
+					fieldData, _ := fieldJson.(map[string]interface{})
+					field := s.ParseItemField(false, fieldData)
 
 					if field != nil {
 						fields = append(fields, field)
@@ -76,11 +76,10 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 				}
 			}
 
-			if detailsJson["sections"] != nil {
-				sectionsJson := detailsJson["sections"].([]interface{})
-
+			if sectionsJson, ok := detailsJson["sections"].([]interface{}); ok {
 				for _, sectionJson := range sectionsJson {
-					section := s.ParseItemSection(sectionJson.(map[string]interface{}))
+					sectionData, _ := sectionJson.(map[string]interface{})
+					section := s.ParseItemSection(sectionData)
 
 					if section != nil {
 						sections = append(sections, section)
@@ -88,21 +87,9 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 				}
 			}
 
-			var title string
-			var url string
-			var notes string
-
-			if overviewJson["title"] != nil {
-				title = overviewJson["title"].(string)
-			}
-
-			if overviewJson["url"] != nil {
-				url = overviewJson["url"].(string)
-			}
-
-			if detailsJson["notesPlain"] != nil {
-				notes = detailsJson["notesPlain"].(string)
-			}
+			title, _ := overviewJson["title"].(string)
+			url, _ := overviewJson["url"].(string)
+			notes, _ := detailsJson["notesPlain"].(string)
 
 			if len(sections) == 0 {
 				sections = nil
@@ -154,35 +141,35 @@ func (s *dfltItemService) ParseItemField(fromSection bool, data map[string]inter
 	var value string
 
 	if !fromSection {
-		if data["value"] != nil && data["name"] != nil {
-			value = data["value"].(string)
-			name := data["name"].(string)
+		value, _ = data["value"].(string)
+		name, _ := data["name"].(string)
 
-			if value != "" && name != "" {
-				field = domain.NewItemField(strings.Title(name), value)
-			}
+		if value != "" && name != "" {
+			field = domain.NewItemField(strings.Title(name), value)
 		}
 	} else {
 		if data["v"] != nil {
-			dataType, err := domain.DataTypeEnum.FromName(data["k"].(string))
+			value = fmt.Sprint(data["v"])
 
-			if err != nil {
-				value = data["v"].(string)
-			} else {
-				if dataType == domain.DataTypeEnum.Address {
-					value = domain.DataTypeEnum.ParseValue(dataType, "", data["v"].(map[string]interface{}))
-				} else {
-					value = fmt.Sprint(data["v"])
+			if number, ok := data["v"].(float64); ok {
+				value = strconv.FormatFloat(number, 'f', -1, 64)
+			}
 
-					if number, ok := data["v"].(float64); ok {
-						value = strconv.FormatInt(int64(number), 10)
-					}
+			kind, _ := data["k"].(string)
+			label, _ := data["t"].(string)
+			dataType, err := domain.DataTypeEnum.FromName(kind)
 
+			if err == nil {
+				if dataType == domain.DataTypeEnum.Address {
+					if address, ok := data["v"].(map[string]interface{}); ok {
+						value = domain.DataTypeEnum.ParseValue(dataType, "", address)
+					}
+				} else {
 					value = domain.DataTypeEnum.ParseValue(dataType, value, nil)
 				}
 			}
 
-			field = domain.NewItemField(strings.Title(data["t"].(string)), value)
+			field = domain.NewItemField(strings.Title(label), value)
 		}
 	}
 
@@ -193,11 +180,10 @@ func (s *dfltItemService) ParseItemSection(data map[string]interface{}) *domain.
 	var title string
 	fields := make([]*domain.ItemField, 0)
 
-	if data["fields"] != nil {
-		fieldsData := data["fields"].([]interface{})
-
-		for _, fieldData := range fieldsData {
-			field := s.ParseItemField(true, fieldData.(map[string]interface{}))
+	if fieldsJson, ok := data["fields"].([]interface{}); ok {
+		for _, fieldJson := range fieldsJson {
+			fieldData, _ := fieldJson.(map[string]interface{})
+			field := s.ParseItemField(true, fieldData)
 
 			if field != nil {
 				fields = append(fields, field)
@@ -209,8 +195,8 @@ func (s *dfltItemService) ParseItemSection(data map[string]interface{}) *domain.
 		fields = nil
 	}
 
-	if data["title"] != nil {
-		title = strings.Title(data["title"].(string))
+	if sectionTitle, ok := data["title"].(string); ok {
+		title = strings.Title(sectionTitle)
 	}
 
 	if fields == nil && title == "" {
-- 
2.43.0


From f1ee859d087ee0a20b012786b30d53f129171088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:04 +0000
Subject: [PATCH 08/34] fix: report malformed band files instead of panicking

---
 1pass-core/core/domain/error.go   |  1 +
 1pass-parse/repo/file/itemrepo.go | 77 +++++++++++++++++++++++++++----
 2 files changed, 68 insertions(+), 10 deletions(-)

diff --git a/1pass-core/core/domain/error.go b/1pass-core/core/domain/error.go
index 66402b9..eae5043 100644
--- a/1pass-core/core/domain/error.go
+++ b/1pass-core/core/domain/error.go
@@ -9,6 +9,7 @@ import (
 )
 
 var (
+	ErrInvalidBand     = errors.New("invalid vault band")
 	ErrInvalidMd5      = errors.New("invalid MD5 checksum")
 	ErrInvalidHmac     = errors.New("invalid HMAC")
 	ErrInvalidOpdata   = errors.New("invalid opdata")
diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 975696f..50b9008 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -14,6 +14,11 @@ import (
 	"github.com/mashmb/1pass/1pass-core/core/domain"
 )
 
+const (
+	bandPrefix string = "ld("
+	bandSuffix string = ");"
+)
+
 type fileItemRepo struct {
 	items []*domain.Item
 }
@@ -109,7 +114,7 @@ func (repo *fileItemRepo) findBandFiles(profileDir string) ([]string, error) {
 
 func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 	items := make([]*domain.RawItem, 0)
-	itemsJson := make(map[string]interface{})
+	itemsJson := make(map[string]map[string]interface{})
 	bandFiles, err := repo.findBandFiles(filepath.Join(vault.Path, domain.ProfileDir))
 
 	if err != nil {
@@ -124,23 +129,24 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 				log.Fatalln(err)
 			}
 
-			if err := json.Unmarshal(file[3:len(file)-2], &itemsJson); err != nil {
+			bandJson, err := repo.parseBand(file)
+
+			if err != nil {
 				log.Fatalln(err)
 			}
+
+			for uid, value := range bandJson {
+				itemsJson[uid] = value
+			}
 		}
 
 		for uid, value := range itemsJson {
-			v := value.(map[string]interface{})
-			created := int64(v["created"].(float64))
-			updated := int64(v["updated"].(float64))
-			trashed := false
+			item, err := repo.parseItem(uid, value)
 
-			if v["trashed"] != nil {
-				trashed = v["trashed"].(bool)
+			if err != nil {
+				log.Fatalln(err)
 			}
 
-			item := domain.NewRawItem(v["category"].(string), v["d"].(string), v["hmac"].(string), v["k"].(string),
-				v["o"].(string), uid, created, updated, trashed)
 			items = append(items, item)
 		}
 	}
@@ -148,6 +154,57 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 	return items
 }
 
+func (repo *fileItemRepo) parseBand(file []byte) (map[string]map[string]interface{}, error) {
+	var bandJson map[string]map[string]interface{}
+
+	if len(file) < len(bandPrefix)+len(bandSuffix) {
+		return nil, domain.ErrInvalidBand
+	}
+
+	if err := json.Unmarshal(file[len(bandPrefix):len(file)-len(bandSuffix)], &bandJson); err != nil {
+		return nil, err
+	}
+
+	if bandJson == nil {
+		return nil, domain.ErrInvalidBand
+	}
+
+	return bandJson, nil
+}
+
+func (repo *fileItemRepo) parseItem(uid string, value map[string]interface{}) (*domain.RawItem, error) {
+	texts := make(map[string]string)
+	trashed := false
+
+	for _, key := range []string{"category", "d", "hmac", "k", "o"} {
+		text, ok := value[key].(string)
+
+		if !ok {
+			return nil, domain.ErrInvalidBand
+		}
+
+		texts[key] = text
+	}
+
+	created, createdOk := value["created"].(float64)
+	updated, updatedOk := value["updated"].(float64)
+
+	if !createdOk || !updatedOk {
+		return nil, domain.ErrInvalidBand
+	}
+
+	if value["trashed"] != nil {
+		var ok bool
+
+		if trashed, ok = value["trashed"].(bool); !ok {
+			return nil, domain.ErrInvalidBand
+		}
+	}
+
+	return domain.NewRawItem(texts["category"], texts["d"], texts["hmac"], texts["k"], texts["o"], uid, int64(created),
+		int64(updated), trashed), nil
+}
+
 func (repo *fileItemRepo) RemoveItems() {
 	if repo.items != nil {
 		repo.items = nil
-- 
2.43.0


From 29335185ef0e24545a202e30dee3444c30e3de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:44 +0000
Subject: [PATCH 09/34] fix: allow saving the configuration when its file is
 empty

---
 1pass-parse/repo/file/configrepo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index 7d4764e..4b825ce 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -46,6 +46,10 @@ func loadConfigFile(configDir string) map[string]interface{} {
 		log.Fatalln(err)
 	}
 
+	if config == nil {
+		config = make(map[string]interface{})
+	}
+
 	return config
 }
 
-- 
2.43.0


From 964fefaaf62f74e27c8515013ad43b6e29dc639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:11 +0000
Subject: [PATCH 10/34] fix: read every answer as one whole line and keep the
 vault path when none is given

---
 1pass-term/control/cobra/clicontrol.go | 47 +++++++++++++++++++-------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/1pass-term/control/cobra/clicontrol.go b/1pass-term/control/cobra/clicontrol.go
index 69b0a51..08d75b4 100644
--- a/1pass-term/control/cobra/clicontrol.go
+++ b/1pass-term/control/cobra/clicontrol.go
@@ -34,6 +34,30 @@ func NewCobraCliControl(configFacade facade.ConfigFacade, updateFacade facade.Up
 	}
 }
 
+// readAnswer reads single line from standard input. Input is read byte by byte to leave following lines for next answers.
+func readAnswer() string {
+	var line []byte
+	char := make([]byte, 1)
+
+	for {
+		n, err := os.Stdin.Read(char)
+
+		if n > 0 {
+			if char[0] == '\n' {
+				break
+			}
+
+			line = append(line, char[0])
+		}
+
+		if err != nil {
+			break
+		}
+	}
+
+	return strings.TrimSpace(string(line))
+}
+
 func (ctrl *cobraCliControl) CheckForUpdate() {
 	config := ctrl.configFacade.GetConfig()
 
@@ -50,29 +74,27 @@ func (ctrl *cobraCliControl) CheckForUpdate() {
 
 func (ctrl *cobraCliControl) Configure() {
 	ctrl.CheckForUpdate()
-	var vaultVal string
-	var notifyVal string
-	var timeoutVal string
-	var periodVal string
-	var confirmVal string
 	config := ctrl.configFacade.GetConfig()
 
 	fmt.Println("Detailed configuration manual can be found online: https://github.com/mashmb/1pass#configuration")
 	fmt.Println("Configuring 1pass:")
 	fmt.Print(fmt.Sprintf("  1. Do you want to set default OPVault path? (%v) [y - for yes/n - for no]: ",
 		domain.LogicValEnum.No.GetName()))
-	fmt.Scanln(&confirmVal)
+	confirmVal := readAnswer()
 	confirm, err := domain.LogicValEnum.FromName(confirmVal)
 
 	if err == nil && confirm == domain.LogicValEnum.Yes {
 		fmt.Print(fmt.Sprintf("     Default OPVault path (%v): ", config.Vault))
-		fmt.Scanln(&vaultVal)
-		config.Vault = strings.TrimSpace(vaultVal)
+		vaultVal := readAnswer()
+
+		if vaultVal != "" {
+			config.Vault = vaultVal
+		}
 	}
 
 	fmt.Print(fmt.Sprintf("  2. Update notifications? (%v) [y - for yes/n - for no]: ",
 		domain.LogicValEnum.FromValue(config.UpdateNotify).GetName()))
-	fmt.Scanln(&notifyVal)
+	notifyVal := readAnswer()
 	notify, err := domain.LogicValEnum.FromName(notifyVal)
 
 	if err == nil {
@@ -80,7 +102,7 @@ func (ctrl *cobraCliControl) Configure() {
 	}
 
 	fmt.Print(fmt.Sprintf("  3. Update HTTP timeout in seconds (%d) [1-30]: ", config.Timeout))
-	fmt.Scanln(&timeoutVal)
+	timeoutVal := readAnswer()
 	timeout, err := strconv.ParseInt(timeoutVal, 10, 64)
 
 	if err == nil && timeout >= 1 && timeout <= 30 {
@@ -88,7 +110,7 @@ func (ctrl *cobraCliControl) Configure() {
 	}
 
 	fmt.Print(fmt.Sprintf("  4. How often check for updates in days (%d) [0-365]: ", config.UpdatePeriod))
-	fmt.Scanln(&periodVal)
+	periodVal := readAnswer()
 	period, err := strconv.ParseInt(periodVal, 10, 64)
 
 	if err == nil && period >= 0 && period <= 365 {
@@ -358,9 +380,8 @@ func (ctrl *cobraCliControl) Update() {
 
 	msg := fmt.Sprintf("New version of 1pass is available (%v).\n\n%v\n", info.Version, info.Changelog)
 	fmt.Println(msg)
-	var permissionVal string
 	fmt.Print(fmt.Sprintf("Do you want to update now? (%v) [y - for yes/n - for no]: ", domain.LogicValEnum.No.GetName()))
-	fmt.Scanln(&permissionVal)
+	permissionVal := readAnswer()
 	permission, err := domain.LogicValEnum.FromName(permissionVal)
 
 	if err != nil || permission == domain.LogicValEnum.No {
-- 
2.43.0


From 0aa71cfef99f649287726ead84ffdffceb94972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:43 +0000
Subject: [PATCH 11/34] fix: compare versions component by component

---
 1pass-up/component/github/updater.go | 35 ++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 634b0a3..3c487a5 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -14,6 +14,7 @@ import (
 	"io"
 	"io/ioutil"
 	"math"
+	"math/big"
 	"net"
 	"net/http"
 	"os"
@@ -47,6 +48,35 @@ func httpClient(timeout int64) http.Client {
 	return httpClient
 }
 
+// isNewer compares dot separated numeric versions component by component (missing components count as zero).
+func isNewer(version, current string) bool {
+	versionNums := strings.Split(version, ".")
+	currentNums := strings.Split(current, ".")
+
+	for i := 0; i < len(versionNums) || i < len(currentNums); i++ {
+		versionNum := new(big.Int)
+		currentNum := new(big.Int)
+
+		if i < len(versionNums) {
+			if _, ok := versionNum.SetString(versionNums[i], 10); !ok {
+				return false
+			}
+		}
+
+		if i < len(currentNums) {
+			if _, ok := currentNum.SetString(currentNums[i], 10); !ok {
+				return false
+			}
+		}
+
+		if cmp := versionNum.Cmp(currentNum); cmp != 0 {
+			return cmp > 0
+		}
+	}
+
+	return false
+}
+
 func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, error) {
 	httpClient := httpClient(timeout)
 	resp, err := httpClient.Get(domain.GithubReleases)
@@ -94,10 +124,7 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 		}
 	}
 
-	currVer, _ := strconv.ParseInt(strings.ReplaceAll(domain.Version, ".", ""), 10, 64)
-	remoteVer, _ := strconv.ParseInt(strings.ReplaceAll(version, ".", ""), 10, 64)
-
-	if remoteVer > currVer {
+	if isNewer(version, domain.Version) {
 		newer = true
 	}
 
-- 
2.43.0


From b4e8f7a22caadbd7c66613c09c74afffaf1fccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:21 +0000
Subject: [PATCH 12/34] fix: report an unexpectedly shaped release list instead
 of panicking

---
 1pass-up/component/github/updater.go | 45 ++++++++++++++++++----------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 3c487a5..b853ce5 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -28,6 +28,17 @@ import (
 
 type githubUpdater struct{}
 
+type releaseAsset struct {
+	Name string `json:"name"`
+	Url  string `json:"browser_download_url"`
+}
+
+type release struct {
+	Assets    []releaseAsset `json:"assets"`
+	Changelog string         `json:"body"`
+	Version   string         `json:"tag_name"`
+}
+
 func NewGithubUpdater() *githubUpdater {
 	return &githubUpdater{}
 }
@@ -92,35 +103,37 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 		return nil, err
 	}
 
-	var bodyJson []interface{}
+	var bodyJson []json.RawMessage
 
 	if err := json.Unmarshal(body, &bodyJson); err != nil {
 		return nil, err
 	}
 
-	if bodyJson == nil || bodyJson[0] == nil {
+	if len(bodyJson) == 0 {
 		return nil, nil
 	}
 
-	latestJson := bodyJson[0].(map[string]interface{})
-	changelog := latestJson["body"].(string)
-	version := latestJson["tag_name"].(string)
-	newer := false
-	var archiveUrl string
-	var checksumUrl string
-	assets := latestJson["assets"].([]interface{})
+	var latest *release
 
-	if assets == nil {
+	if err := json.Unmarshal(bodyJson[0], &latest); err != nil {
+		return nil, err
+	}
+
+	if latest == nil || latest.Assets == nil {
 		return nil, nil
 	}
 
-	for _, assetJson := range assets {
-		asset := assetJson.(map[string]interface{})
+	changelog := latest.Changelog
+	version := latest.Version
+	newer := false
+	var archiveUrl string
+	var checksumUrl string
 
-		if strings.Contains(asset["name"].(string), ".tar.gz") {
-			archiveUrl = asset["browser_download_url"].(string)
-		} else if strings.Contains(asset["name"].(string), ".md5") {
-			checksumUrl = asset["browser_download_url"].(string)
+	for _, asset := range latest.Assets {
+		if strings.Contains(asset.Name, ".tar.gz") {
+			archiveUrl = asset.Url
+		} else if strings.Contains(asset.Name, ".md5") {
+			checksumUrl = asset.Url
 		}
 	}
 
-- 
2.43.0


From f3bf5cd999e25ab2d64ffb9b443114426c7e7c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:25 +0000
Subject: [PATCH 13/34] fix: treat an empty checksum file as an invalid
 checksum instead of panicking

---
 1pass-up/component/github/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index b853ce5..1d6f518 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -295,7 +295,7 @@ func (up *githubUpdater) ValidateChecksum(binary, file string) error {
 	bytes := hash.Sum(nil)
 	calculated := hex.EncodeToString(bytes)
 
-	if chunks[0] != calculated {
+	if len(chunks) == 0 || chunks[0] != calculated {
 		return domain.ErrInvalidMd5
 	}
 
-- 
2.43.0


From 3c543d927ff27319c8cee6894e77515286e22e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:30 +0000
Subject: [PATCH 14/34] fix: keep the program executable when it is replaced

---
 1pass-up/component/github/updater.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 1d6f518..d396f74 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -233,6 +233,16 @@ func (up *githubUpdater) ReplaceBinary(src string) error {
 		return err
 	}
 
+	info, err := os.Stat(dst)
+
+	if err != nil {
+		return err
+	}
+
+	if err := os.Chmod(src, info.Mode().Perm()); err != nil {
+		return err
+	}
+
 	if err := os.Rename(src, dst); err != nil {
 		return err
 	}
-- 
2.43.0


From f06f8f471091f199e7b07e868bca186053cd8319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:25 +0000
Subject: [PATCH 15/34] fix: do not let the archive overwrite the downloaded
 checksum

---
 1pass-core/core/domain/static.go         | 1 +
 1pass-core/core/service/updateservice.go | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/1pass-core/core/domain/static.go b/1pass-core/core/domain/static.go
index 190c6a1..0b65eb9 100644
--- a/1pass-core/core/domain/static.go
+++ b/1pass-core/core/domain/static.go
@@ -11,6 +11,7 @@ const (
 	CacheDir        string = "/tmp/1pass"
 	Checksum        string = "checksum.md5"
 	ConfigFile      string = "1pass.yml"
+	ExtractDir      string = "extracted"
 	GithubReleases  string = "https://api.github.com/repos/mashmb/1pass/releases"
 	LastCheckFile   string = "lastcheck"
 	ProfileDir      string = "default"
diff --git a/1pass-core/core/service/updateservice.go b/1pass-core/core/service/updateservice.go
index cee2047..50ab66c 100644
--- a/1pass-core/core/service/updateservice.go
+++ b/1pass-core/core/service/updateservice.go
@@ -87,12 +87,17 @@ func (s *dfltUpdateService) Update(timeout int, stage func(int)) error {
 		}
 
 		stage(4)
+		extracted := filepath.Join(domain.CacheDir, domain.ExtractDir)
 
-		if err := s.updater.ExtractArchive(archive, domain.CacheDir); err != nil {
+		if err := os.MkdirAll(extracted, 0700); err != nil {
 			return err
 		}
 
-		binary := filepath.Join(domain.CacheDir, domain.AppName)
+		if err := s.updater.ExtractArchive(archive, extracted); err != nil {
+			return err
+		}
+
+		binary := filepath.Join(extracted, domain.AppName)
 
 		stage(5)
 
-- 
2.43.0


From 661ae902fa97f0df6dafa3631e51282a7ab6fd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:04 +0000
Subject: [PATCH 16/34] fix: refuse archive entries that point outside the
 update cache

---
 1pass-up/component/github/updater.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index d396f74..456b1a2 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -211,6 +211,10 @@ func (up *githubUpdater) ExtractArchive(src, dst string) error {
 		target := filepath.Join(dst, header.Name)
 
 		if header.Typeflag == tar.TypeReg {
+			if !strings.HasPrefix(target, filepath.Clean(dst)+string(os.PathSeparator)) {
+				return fmt.Errorf("invalid file name in archive (%v)", header.Name)
+			}
+
 			file, err := os.Create(target)
 
 			if err != nil {
-- 
2.43.0


From 97cf72401c86e9c001158d061f02a4cb0f47b144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:12 +0000
Subject: [PATCH 17/34] fix: apply the update timeout to the whole conversation
 with the server

---
 1pass-up/component/github/updater.go | 30 +++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 456b1a2..314ad2c 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -43,12 +43,40 @@ func NewGithubUpdater() *githubUpdater {
 	return &githubUpdater{}
 }
 
+// timeoutConn gives up on reading and writing when other side is silent for too long.
+type timeoutConn struct {
+	net.Conn
+	timeout time.Duration
+}
+
+func (c *timeoutConn) Read(b []byte) (int, error) {
+	if err := c.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
+		return 0, err
+	}
+
+	return c.Conn.Read(b)
+}
+
+func (c *timeoutConn) Write(b []byte) (int, error) {
+	if err := c.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {
+		return 0, err
+	}
+
+	return c.Conn.Write(b)
+}
+
 func httpClient(timeout int64) http.Client {
 	httpTransport := http.Transport{
 		Dial: func(network, address string) (net.Conn, error) {
 			tout := time.Duration(timeout) * time.Second
 
-			return net.DialTimeout(network, address, tout)
+			conn, err := net.DialTimeout(network, address, tout)
+
+			if err != nil {
+				return nil, err
+			}
+
+			return &timeoutConn{Conn: conn, timeout: tout}, nil
 		},
 	}
 
-- 
2.43.0


From 1a215fbe5df7e7912460e1b312ebc4bf50d56bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:23 +0000
Subject: [PATCH 18/34] fix: unlock with the password exactly as it was typed
 in the GUI

---
 1pass-app/gui/1passwidget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 50f5dbd..e7e3bbe 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -147,7 +147,7 @@ func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 }
 
 func (ow *onepassWidget) unlock(ui *gocui.Gui, view *gocui.View) error {
-	password := strings.TrimSpace(view.ViewBuffer())
+	password := strings.TrimSuffix(view.Buffer(), "\n")
 
 	if err := ui.DeleteView(ow.passPrompt.name); err != nil {
 		return err
-- 
2.43.0


From bc1cf88d80c30a51db49af445c70dddb50ce551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:49 +0000
Subject: [PATCH 19/34] fix: accept passwords longer than the password prompt
 in the GUI

---
 1pass-app/gui/passprompt.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/1pass-app/gui/passprompt.go b/1pass-app/gui/passprompt.go
index 4532fb9..7de9e3f 100644
--- a/1pass-app/gui/passprompt.go
+++ b/1pass-app/gui/passprompt.go
@@ -22,6 +22,16 @@ func newPasswordPrompt(handler func(ui *gocui.Gui, view *gocui.View) error) *pas
 	}
 }
 
+// edit works around default editor leaving gaps in text that is longer than the view.
+func (pp *passwordPrompt) edit(view *gocui.View, key gocui.Key, ch rune, mod gocui.Modifier) {
+	gocui.DefaultEditor.Edit(view, key, ch, mod)
+	maxX, _ := view.Size()
+
+	if cx, cy := view.Cursor(); cx >= maxX {
+		view.SetCursor(maxX-1, cy)
+	}
+}
+
 func (pp *passwordPrompt) Keybindings(ui *gocui.Gui) error {
 	if err := ui.SetKeybinding(pp.name, gocui.KeyEnter, gocui.ModNone, pp.handler); err != nil {
 		return err
@@ -42,6 +52,7 @@ func (pp *passwordPrompt) Layout(ui *gocui.Gui) error {
 
 		view.Title = pp.title
 		view.Editable = true
+		view.Editor = gocui.EditorFunc(pp.edit)
 		view.Mask = '*'
 
 		if _, err := ui.SetCurrentView(pp.name); err != nil {
-- 
2.43.0


From 34c250dee880538904673631eb78248f1f014934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:07 +0000
Subject: [PATCH 20/34] fix: open the selected menu entry when there are no
 trashed items

---
 1pass-app/gui/1passwidget.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index e7e3bbe..57e4a59 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -178,21 +178,9 @@ func (ow *onepassWidget) showItems(ui *gocui.Gui, view *gocui.View) error {
 			return err
 		}
 
-		var items []*domain.SimpleItem
-
-		if len(ow.categories) == 1 {
-			items = ow.guiControl.GetItems(nil, true)
-		} else {
-			if ow.currIdx == len(ow.categories)-1 {
-				items = ow.guiControl.GetItems(nil, true)
-			} else if ow.currIdx == 0 {
-				items = ow.guiControl.GetItems(nil, false)
-			} else {
-				items = ow.guiControl.GetItems(ow.categories[ow.currIdx], false)
-			}
-		}
-
-		ow.itemsWidget.items = items
+		category := ow.categories[ow.currIdx]
+		trashed := category == nil && (ow.currIdx > 0 || ow.guiControl.CountItems(nil, false) == 0)
+		ow.itemsWidget.items = ow.guiControl.GetItems(category, trashed)
 
 		if err := ow.itemsWidget.update(ui); err != nil {
 			return err
-- 
2.43.0


From 6b633a0708c1c79656a7119bb2d22fc155a9273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:09 +0000
Subject: [PATCH 21/34] fix: show the GUI menu from its beginning after
 unlocking again

---
 1pass-app/gui/1passwidget.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 57e4a59..08933e2 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -132,13 +132,13 @@ func (ow *onepassWidget) promptForPassword(ui *gocui.Gui) error {
 
 func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 	if view != nil {
-		ox, oy := view.Origin()
+		ox, _ := view.Origin()
 		cx, _ := view.Cursor()
 
-		if err := view.SetCursor(cx, 0); err != nil && oy > 0 {
-			if err := view.SetOrigin(ox, 0); err != nil {
-				return err
-			}
+		view.SetCursor(cx, 0)
+
+		if err := view.SetOrigin(ox, 0); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From a89a0fa3a9a512b96c3f565fe4394746c7670522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:13 +0000
Subject: [PATCH 22/34] fix: show GUI item details from their beginning after
 scrolling both ways

---
 1pass-app/gui/detailswidget.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/1pass-app/gui/detailswidget.go b/1pass-app/gui/detailswidget.go
index 8889b36..b927a7c 100644
--- a/1pass-app/gui/detailswidget.go
+++ b/1pass-app/gui/detailswidget.go
@@ -39,18 +39,8 @@ func newDetailsWidget(parent string, helpWidget *helpWidget, lockHandler func(ui
 
 func (dw *detailsWidget) resetOrigin(view *gocui.View) error {
 	if view != nil {
-		ox, oy := view.Origin()
-
-		if ox > 0 {
-			if err := view.SetOrigin(0, oy); err != nil {
-				return err
-			}
-		}
-
-		if oy > 0 {
-			if err := view.SetOrigin(ox, 0); err != nil {
-				return err
-			}
+		if err := view.SetOrigin(0, 0); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From dcf870d6672d2d71f1463fb3953e9de4062497b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:22 +0000
Subject: [PATCH 23/34] fix: keep GUI item list at one line per item

---
 1pass-app/gui/itemswidget.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/1pass-app/gui/itemswidget.go b/1pass-app/gui/itemswidget.go
index 04457a8..645e372 100644
--- a/1pass-app/gui/itemswidget.go
+++ b/1pass-app/gui/itemswidget.go
@@ -6,6 +6,7 @@ package gui
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/jroimartin/gocui"
 	"github.com/mashmb/1pass/1pass-core/core/domain"
@@ -194,6 +195,8 @@ func (iw *itemsWidget) update(ui *gocui.Gui) error {
 				title = "<NO TITLE>"
 			}
 
+			// single line per item, otherwise cursor would not match selected item
+			title = strings.NewReplacer("\r", "", "\n", " ").Replace(title)
 			position := fmt.Sprintf("%v\n", title)
 			fmt.Fprint(view, position)
 		}
-- 
2.43.0


From 27268dc00d4b37eebbd2a9e13f48c4b529bf2877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:03 +0000
Subject: [PATCH 24/34] fix: show all lines of GUI item details that end with
 carriage return

---
 1pass-app/gui/detailswidget.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/1pass-app/gui/detailswidget.go b/1pass-app/gui/detailswidget.go
index b927a7c..1ab3c0d 100644
--- a/1pass-app/gui/detailswidget.go
+++ b/1pass-app/gui/detailswidget.go
@@ -5,6 +5,7 @@
 package gui
 
 import (
+	"bytes"
 	"fmt"
 	"time"
 
@@ -27,6 +28,19 @@ type detailsWidget struct {
 	item        *domain.Item
 }
 
+// linesWriter drops carriage returns - view would erase current line on them.
+type linesWriter struct {
+	view *gocui.View
+}
+
+func (lw *linesWriter) Write(p []byte) (int, error) {
+	if _, err := lw.view.Write(bytes.ReplaceAll(p, []byte("\r"), nil)); err != nil {
+		return 0, err
+	}
+
+	return len(p), nil
+}
+
 func newDetailsWidget(parent string, helpWidget *helpWidget, lockHandler func(ui *gocui.Gui, view *gocui.View) error) *detailsWidget {
 	return &detailsWidget{
 		name:        "detailsWidget",
@@ -118,18 +132,20 @@ func (dw *detailsWidget) toggleDetails(ui *gocui.Gui, view *gocui.View) error {
 }
 
 func (dw *detailsWidget) update(overview bool, ui *gocui.Gui) error {
-	view, err := ui.View(dw.name)
+	pane, err := ui.View(dw.name)
 
 	if err != nil {
 		return err
 	}
 
-	view.Clear()
+	pane.Clear()
 
-	if err := dw.resetOrigin(view); err != nil {
+	if err := dw.resetOrigin(pane); err != nil {
 		return err
 	}
 
+	view := &linesWriter{view: pane}
+
 	if dw.item != nil {
 		fmt.Fprint(view, fmt.Sprintf("%v\n", dw.item.Category.GetName()))
 		fmt.Fprint(view, "------------------------------\n")
-- 
2.43.0


From 76b0b19efee88b313cc299b199b3ffda96e3d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:21 +0000
Subject: [PATCH 25/34] fix: draw the result of the GUI update check when it
 arrives

The check runs in its own goroutine and wrote straight into the view, so the result
was drawn only after the next key press and the write raced with the drawing.
---
 1pass-app/gui/versionwidget.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/1pass-app/gui/versionwidget.go b/1pass-app/gui/versionwidget.go
index df3732b..ab74b80 100644
--- a/1pass-app/gui/versionwidget.go
+++ b/1pass-app/gui/versionwidget.go
@@ -29,18 +29,30 @@ func newVerWidget(version string, guiControl in.GuiControl) *verWidget {
 }
 
 func (vw *verWidget) update(ui *gocui.Gui) {
-	view, _ := ui.View(vw.name)
+	var msg string
 	info, err := vw.guiControl.CheckForUpdate()
 
 	if err != nil {
 		if err == domain.ErrNoUpdate {
-			fmt.Fprint(view, fmt.Sprintf("(%v)", err))
+			msg = fmt.Sprintf("(%v)", err)
 		} else {
-			fmt.Fprint(view, "(update check failed - run '1pass update' for more info)")
+			msg = "(update check failed - run '1pass update' for more info)"
 		}
 	} else {
-		fmt.Fprint(view, fmt.Sprintf("(new version is available: v%v - run '1pass update' to upgrade)", info.Version))
+		msg = fmt.Sprintf("(new version is available: v%v - run '1pass update' to upgrade)", info.Version)
 	}
+
+	ui.Update(func(ui *gocui.Gui) error {
+		view, err := ui.View(vw.name)
+
+		if err != nil {
+			return err
+		}
+
+		fmt.Fprint(view, msg)
+
+		return nil
+	})
 }
 
 func (vw *verWidget) Layout(ui *gocui.Gui) error {
-- 
2.43.0


From e1bbcedd453d87ee38ae2f8b56f1da88612dd718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:49 +0000
Subject: [PATCH 26/34] fix: fall back to defaults for unusable values of the
 configuration file

---
 1pass-parse/repo/file/configrepo.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index 4b825ce..6978794 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -70,8 +70,8 @@ func (repo *fileConfigRepo) GetDefaultVault() string {
 func (repo *fileConfigRepo) GetTimeout() int {
 	timeout := 1
 
-	if repo.config["timeout"] != nil {
-		timeout = repo.config["timeout"].(int)
+	if val, ok := repo.config["timeout"].(int); ok && val > 0 {
+		timeout = val
 	}
 
 	return timeout
@@ -80,8 +80,8 @@ func (repo *fileConfigRepo) GetTimeout() int {
 func (repo *fileConfigRepo) GetUpdateNotification() bool {
 	notification := true
 
-	if repo.config["update-notification"] != nil {
-		notification = repo.config["update-notification"].(bool)
+	if val, ok := repo.config["update-notification"].(bool); ok {
+		notification = val
 	}
 
 	return notification
@@ -90,8 +90,8 @@ func (repo *fileConfigRepo) GetUpdateNotification() bool {
 func (repo *fileConfigRepo) GetUpdatePeriod() int {
 	period := 1
 
-	if repo.config["update-period"] != nil {
-		period = repo.config["update-period"].(int)
+	if val, ok := repo.config["update-period"].(int); ok && val >= 0 {
+		period = val
 	}
 
 	return period
-- 
2.43.0


From 3fc02b3e40d00252880951c43365de7d9eeec8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:15 +0000
Subject: [PATCH 27/34] fix: end with a non-zero status on wrong usage

---
 1pass-app/cli/cobra.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/1pass-app/cli/cobra.go b/1pass-app/cli/cobra.go
index f623b27..6551389 100644
--- a/1pass-app/cli/cobra.go
+++ b/1pass-app/cli/cobra.go
@@ -6,6 +6,7 @@ package cli
 
 import (
 	"fmt"
+	"os"
 
 	"github.com/mashmb/1pass/1pass-app/gui"
 	"github.com/mashmb/1pass/1pass-core/port/in"
@@ -153,5 +154,6 @@ func (cli *cobraCli) Run() {
 
 	if err := rootCmd.Execute(); err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 398856ec07d971f9c7e1252a29c625b8ace82132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:54 +0000
Subject: [PATCH 28/34] fix: replace the configuration file in one step

---
 1pass-parse/repo/file/configrepo.go | 49 ++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index 6978794..cdc5862 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -113,9 +113,56 @@ func (repo *fileConfigRepo) Save(config *domain.Config) {
 		os.MkdirAll(repo.configDir, 0700)
 	}
 
-	if err := ioutil.WriteFile(configFile, file, 0644); err != nil {
+	if err := replaceFile(configFile, file); err != nil {
 		log.Fatalln(err)
 	}
 
 	repo.config = loadConfigFile(repo.configDir)
 }
+
+// Replace file in one step, so that interrupted write does not destroy previous content.
+func replaceFile(path string, content []byte) error {
+	mode := os.FileMode(0644)
+
+	if target, err := filepath.EvalSymlinks(path); err == nil {
+		path = target
+	} else if !os.IsNotExist(err) {
+		return err
+	}
+
+	if info, err := os.Stat(path); err == nil {
+		mode = info.Mode().Perm()
+	} else if !os.IsNotExist(err) {
+		return err
+	}
+
+	tmp, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path)+".*")
+
+	if err != nil {
+		return err
+	}
+
+	_, err = tmp.Write(content)
+
+	if err == nil {
+		err = tmp.Chmod(mode)
+	}
+
+	if err == nil {
+		err = tmp.Sync()
+	}
+
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err == nil {
+		err = os.Rename(tmp.Name(), path)
+	}
+
+	if err != nil {
+		os.Remove(tmp.Name())
+	}
+
+	return err
+}
-- 
2.43.0


From dbb4b8f6b6c491958a69d2ae7c2dd2359990f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:41 +0000
Subject: [PATCH 29/34] fix: restore terminal when command is interrupted at
 password prompt

---
 1pass-term/control/cobra/clicontrol.go | 32 +++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/1pass-term/control/cobra/clicontrol.go b/1pass-term/control/cobra/clicontrol.go
index 08d75b4..a68bec9 100644
--- a/1pass-term/control/cobra/clicontrol.go
+++ b/1pass-term/control/cobra/clicontrol.go
@@ -7,6 +7,7 @@ package cobra
 import (
 	"fmt"
 	"os"
+	"os/signal"
 	"sort"
 	"strconv"
 	"strings"
@@ -58,6 +59,31 @@ func readAnswer() string {
 	return strings.TrimSpace(string(line))
 }
 
+// readPassword reads password without echo. Terminal is restored also when the user gives up.
+func readPassword() ([]byte, error) {
+	stdin := int(syscall.Stdin)
+
+	if state, err := term.GetState(stdin); err == nil {
+		signals := make(chan os.Signal, 1)
+		signal.Notify(signals, syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM)
+
+		defer func() {
+			signal.Stop(signals)
+			close(signals)
+		}()
+
+		go func() {
+			if _, ok := <-signals; ok {
+				term.Restore(stdin, state)
+				fmt.Println()
+				os.Exit(1)
+			}
+		}()
+	}
+
+	return term.ReadPassword(stdin)
+}
+
 func (ctrl *cobraCliControl) CheckForUpdate() {
 	config := ctrl.configFacade.GetConfig()
 
@@ -168,7 +194,7 @@ func (ctrl *cobraCliControl) GetItemDetails(vaultPath, uid string, trashed bool)
 	}
 
 	fmt.Println("Password:")
-	password, err := term.ReadPassword(int(syscall.Stdin))
+	password, err := readPassword()
 	err = ctrl.vaultFacade.Unlock(vault, string(password))
 
 	if err != nil {
@@ -249,7 +275,7 @@ func (ctrl *cobraCliControl) GetItemOverview(vaultPath, uid string, trashed bool
 	}
 
 	fmt.Println("Password:")
-	password, err := term.ReadPassword(int(syscall.Stdin))
+	password, err := readPassword()
 	err = ctrl.vaultFacade.Unlock(vault, string(password))
 
 	if err != nil {
@@ -329,7 +355,7 @@ func (ctrl *cobraCliControl) GetItems(vaultPath, category, title string, trashed
 	}
 
 	fmt.Println("Password:")
-	password, err := term.ReadPassword(int(syscall.Stdin))
+	password, err := readPassword()
 	err = ctrl.vaultFacade.Unlock(vault, string(password))
 
 	if err != nil {
-- 
2.43.0


From 9f9d3b13f6edfcd49948d473d856d1b110f57f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:41 +0000
Subject: [PATCH 30/34] fix: keep GUI working in small and resized terminal

---
 1pass-app/gui/1passwidget.go   | 51 +++++++++++++++++++++++++++++++++-
 1pass-app/gui/gocui.go         | 42 ++++++++++++++++++++++++++++
 1pass-app/gui/helpwidget.go    |  4 +++
 1pass-app/gui/itemswidget.go   | 18 ++++++++++++
 1pass-app/gui/versionwidget.go |  4 +++
 5 files changed, 118 insertions(+), 1 deletion(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 08933e2..a96f068 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -22,6 +22,8 @@ Open: ENTER`
 
 type onepassWidget struct {
 	currIdx     int
+	maxX        int
+	maxY        int
 	name        string
 	title       string
 	errDialog   *errorDialog
@@ -146,6 +148,45 @@ func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 
 }
 
+// resize adjusts visible widgets to the new size of terminal.
+func (ow *onepassWidget) resize(ui *gocui.Gui, view *gocui.View) error {
+	if ow.currIdx != -1 {
+		currIdx := ow.currIdx
+		ow.categories = make([]*domain.ItemCategory, 0)
+		view.Clear()
+
+		if err := ow.update(ui); err != nil {
+			return err
+		}
+
+		ow.currIdx = currIdx
+
+		if err := selectLine(view, ow.currIdx, len(ow.categories)); err != nil {
+			return err
+		}
+	}
+
+	if _, err := ui.View(ow.passPrompt.name); err == nil {
+		if err := ow.passPrompt.Layout(ui); err != nil {
+			return err
+		}
+	}
+
+	if _, err := ui.View(ow.errDialog.name); err == nil {
+		if err := ow.errDialog.Layout(ui); err != nil {
+			return err
+		}
+	}
+
+	if _, err := ui.View(ow.itemsWidget.name); err == nil {
+		if err := ow.itemsWidget.resize(ui); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
 func (ow *onepassWidget) unlock(ui *gocui.Gui, view *gocui.View) error {
 	password := strings.TrimSuffix(view.Buffer(), "\n")
 
@@ -173,7 +214,7 @@ func (ow *onepassWidget) unlock(ui *gocui.Gui, view *gocui.View) error {
 }
 
 func (ow *onepassWidget) showItems(ui *gocui.Gui, view *gocui.View) error {
-	if ow.currIdx != -1 {
+	if ow.currIdx != -1 && fits(ui) {
 		if err := ow.itemsWidget.Layout(ui); err != nil {
 			return err
 		}
@@ -293,7 +334,13 @@ func (ow *onepassWidget) Keybindings(ui *gocui.Gui) error {
 }
 
 func (ow *onepassWidget) Layout(ui *gocui.Gui) error {
+	if !fits(ui) {
+		return nil
+	}
+
 	maxX, maxY := ui.Size()
+	resized := maxX != ow.maxX || maxY != ow.maxY
+	ow.maxX, ow.maxY = maxX, maxY
 
 	if view, err := ui.SetView(ow.name, 0, 3, maxX-1, maxY-4); err != nil {
 		if err != gocui.ErrUnknownView {
@@ -319,6 +366,8 @@ func (ow *onepassWidget) Layout(ui *gocui.Gui) error {
 		if err := ow.helpWidget.update(ui); err != nil {
 			return err
 		}
+	} else if resized {
+		return ow.resize(ui, view)
 	}
 
 	return nil
diff --git a/1pass-app/gui/gocui.go b/1pass-app/gui/gocui.go
index ddaefd2..c3d0de0 100644
--- a/1pass-app/gui/gocui.go
+++ b/1pass-app/gui/gocui.go
@@ -13,6 +13,11 @@ import (
 	"github.com/mashmb/1pass/1pass-core/port/in"
 )
 
+const (
+	minWidth  int = 10
+	minHeight int = 11
+)
+
 type GocuiGui struct {
 	version    string
 	guiControl in.GuiControl
@@ -25,6 +30,42 @@ func NewGocuiGui(version string, guiControl in.GuiControl) *GocuiGui {
 	}
 }
 
+// fits checks if terminal has enough room for all widgets.
+func fits(ui *gocui.Gui) bool {
+	maxX, maxY := ui.Size()
+
+	return maxX >= minWidth && maxY >= minHeight
+}
+
+// selectLine moves cursor to the line, visible part of the view follows it.
+func selectLine(view *gocui.View, line, total int) error {
+	_, height := view.Size()
+	ox, oy := view.Origin()
+	cx, _ := view.Cursor()
+
+	if oy > total-height {
+		oy = total - height
+	}
+
+	if oy < line-height+1 {
+		oy = line - height + 1
+	}
+
+	if oy > line {
+		oy = line
+	}
+
+	if oy < 0 {
+		oy = 0
+	}
+
+	if err := view.SetOrigin(ox, oy); err != nil {
+		return err
+	}
+
+	return view.SetCursor(cx, line-oy)
+}
+
 func (gui *GocuiGui) quit(_ *gocui.Gui, _ *gocui.View) error {
 	return gocui.ErrQuit
 }
@@ -58,6 +99,7 @@ func (gui *GocuiGui) Run(vaultPath string) {
 	}
 
 	if err := ui.MainLoop(); err != nil && err != gocui.ErrQuit {
+		ui.Close()
 		log.Fatalln(err)
 	}
 }
diff --git a/1pass-app/gui/helpwidget.go b/1pass-app/gui/helpwidget.go
index 9d9fa73..652a77c 100644
--- a/1pass-app/gui/helpwidget.go
+++ b/1pass-app/gui/helpwidget.go
@@ -62,6 +62,10 @@ func (hw *helpWidget) update(ui *gocui.Gui) error {
 }
 
 func (hw *helpWidget) Layout(ui *gocui.Gui) error {
+	if !fits(ui) {
+		return nil
+	}
+
 	maxX, maxY := ui.Size()
 
 	if view, err := ui.SetView(hw.name, 0, maxY-3, maxX-1, maxY-1); err != nil {
diff --git a/1pass-app/gui/itemswidget.go b/1pass-app/gui/itemswidget.go
index 645e372..f55c114 100644
--- a/1pass-app/gui/itemswidget.go
+++ b/1pass-app/gui/itemswidget.go
@@ -140,6 +140,24 @@ func (iw *itemsWidget) resetCursor(view *gocui.View) error {
 	return nil
 }
 
+func (iw *itemsWidget) resize(ui *gocui.Gui) error {
+	if err := iw.Layout(ui); err != nil {
+		return err
+	}
+
+	if err := iw.detailsWidget.Layout(ui); err != nil {
+		return err
+	}
+
+	view, err := ui.View(iw.name)
+
+	if err != nil || iw.currIdx == -1 {
+		return err
+	}
+
+	return selectLine(view, iw.currIdx, len(iw.items))
+}
+
 func (iw *itemsWidget) showOverview(ui *gocui.Gui) error {
 	item := iw.guiControl.GetItem(iw.items[iw.currIdx])
 	iw.detailsWidget.item = item
diff --git a/1pass-app/gui/versionwidget.go b/1pass-app/gui/versionwidget.go
index ab74b80..c914b22 100644
--- a/1pass-app/gui/versionwidget.go
+++ b/1pass-app/gui/versionwidget.go
@@ -56,6 +56,10 @@ func (vw *verWidget) update(ui *gocui.Gui) {
 }
 
 func (vw *verWidget) Layout(ui *gocui.Gui) error {
+	if !fits(ui) {
+		return nil
+	}
+
 	maxX, _ := ui.Size()
 
 	if view, err := ui.SetView(vw.name, 0, 0, maxX-1, 2); err != nil {
-- 
2.43.0


From 75d3440f9cdd69a18bbc847d51a26f97669ca97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:46 +0000
Subject: [PATCH 31/34] fix: restore help after going back from items

---
 1pass-app/gui/itemswidget.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/1pass-app/gui/itemswidget.go b/1pass-app/gui/itemswidget.go
index f55c114..59ee43b 100644
--- a/1pass-app/gui/itemswidget.go
+++ b/1pass-app/gui/itemswidget.go
@@ -104,6 +104,12 @@ func (iw *itemsWidget) goBack(ui *gocui.Gui, view *gocui.View) error {
 		return err
 	}
 
+	iw.helpWidget.help = onepassHelp
+
+	if err := iw.helpWidget.update(ui); err != nil {
+		return err
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 379aa7f2197b00c76c09006ebb55ed97808f6087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:04 +0000
Subject: [PATCH 32/34] fix: give terminal back before fatal error of GUI is
 written

---
 1pass-app/gui/gocui.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/1pass-app/gui/gocui.go b/1pass-app/gui/gocui.go
index c3d0de0..2542995 100644
--- a/1pass-app/gui/gocui.go
+++ b/1pass-app/gui/gocui.go
@@ -8,6 +8,8 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"runtime"
+	"strings"
 
 	"github.com/jroimartin/gocui"
 	"github.com/mashmb/1pass/1pass-core/port/in"
@@ -30,6 +32,39 @@ func NewGocuiGui(version string, guiControl in.GuiControl) *GocuiGui {
 	}
 }
 
+// logWriter keeps logs away from the screen. Terminal is given back before fatal errors, they would not be visible otherwise.
+type logWriter struct {
+	ui *gocui.Gui
+}
+
+// fatal checks if log is written right before exit.
+func (lw *logWriter) fatal() bool {
+	pcs := make([]uintptr, 16)
+	frames := runtime.CallersFrames(pcs[:runtime.Callers(1, pcs)])
+
+	for {
+		frame, more := frames.Next()
+
+		if strings.HasPrefix(frame.Function, "log.Fatal") {
+			return true
+		}
+
+		if !more {
+			return false
+		}
+	}
+}
+
+func (lw *logWriter) Write(p []byte) (int, error) {
+	if !lw.fatal() {
+		return len(p), nil
+	}
+
+	lw.ui.Close()
+
+	return os.Stderr.Write(p)
+}
+
 // fits checks if terminal has enough room for all widgets.
 func fits(ui *gocui.Gui) bool {
 	maxX, maxY := ui.Size()
@@ -85,6 +120,7 @@ func (gui *GocuiGui) Run(vaultPath string) {
 	}
 
 	defer ui.Close()
+	log.SetOutput(&logWriter{ui: ui})
 	version := newVerWidget(gui.version, gui.guiControl)
 	help := newHelpWidget()
 	onepass := newOnepassWidget(help, vault, gui.guiControl)
@@ -99,7 +135,6 @@ func (gui *GocuiGui) Run(vaultPath string) {
 	}
 
 	if err := ui.MainLoop(); err != nil && err != gocui.ErrQuit {
-		ui.Close()
 		log.Fatalln(err)
 	}
 }
-- 
2.43.0


From d64a49b15ec20229f4c0fa0d99d41c301a2e4f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:11 +0000
Subject: [PATCH 33/34] fix: read profile of vault again on every unlock

---
 1pass-core/core/facade/vaultfacade.go |  5 +++++
 1pass-parse/repo/file/profilerepo.go  | 28 +++++++++++++--------------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/1pass-core/core/facade/vaultfacade.go b/1pass-core/core/facade/vaultfacade.go
index cc9951a..bdaa3c4 100644
--- a/1pass-core/core/facade/vaultfacade.go
+++ b/1pass-core/core/facade/vaultfacade.go
@@ -55,6 +55,11 @@ func (f *dfltVaultFacade) Lock() {
 }
 
 func (f *dfltVaultFacade) Unlock(vault *domain.Vault, password string) error {
+	// vault could be changed since last validation
+	if err := f.vaultService.ValidateVault(vault); err != nil {
+		return err
+	}
+
 	derivedKey, derivedMac, err := f.keyService.DerivedKeys(password)
 
 	if err != nil {
diff --git a/1pass-parse/repo/file/profilerepo.go b/1pass-parse/repo/file/profilerepo.go
index b7cb22a..da10f32 100644
--- a/1pass-parse/repo/file/profilerepo.go
+++ b/1pass-parse/repo/file/profilerepo.go
@@ -43,24 +43,24 @@ func (repo *fileProfileRepo) GetSalt() string {
 }
 
 func (repo *fileProfileRepo) LoadProfile(vault *domain.Vault) {
-	if repo.profileJson == nil {
-		file, err := ioutil.ReadFile(filepath.Join(vault.Path, domain.ProfileDir, domain.ProfileFile))
+	file, err := ioutil.ReadFile(filepath.Join(vault.Path, domain.ProfileDir, domain.ProfileFile))
 
-		if err != nil {
-			log.Fatalln(err)
-		}
+	if err != nil {
+		log.Fatalln(err)
+	}
 
-		if len(file) < len(profilePrefix)+len(profileSuffix) {
-			log.Fatalln(domain.ErrInvalidProfile)
-		}
+	if len(file) < len(profilePrefix)+len(profileSuffix) {
+		log.Fatalln(domain.ErrInvalidProfile)
+	}
 
-		if err := json.Unmarshal(file[len(profilePrefix):len(file)-len(profileSuffix)], &repo.profileJson); err != nil {
-			log.Fatalln(err)
-		}
+	repo.profileJson = nil
 
-		if err := repo.checkProfile(); err != nil {
-			log.Fatalln(err)
-		}
+	if err := json.Unmarshal(file[len(profilePrefix):len(file)-len(profileSuffix)], &repo.profileJson); err != nil {
+		log.Fatalln(err)
+	}
+
+	if err := repo.checkProfile(); err != nil {
+		log.Fatalln(err)
 	}
 }
 
-- 
2.43.0


From 9891481d99e685521b499f5b70941cde8b77cce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:10 +0000
Subject: [PATCH 34/34] fix: update program that is on another file system than
 the update cache

---
 1pass-up/component/github/updater.go | 42 ++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 314ad2c..53b9680 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -10,6 +10,7 @@ import (
 	"crypto/md5"
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -21,6 +22,7 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"syscall"
 	"time"
 
 	"github.com/mashmb/1pass/1pass-core/core/domain"
@@ -276,12 +278,52 @@ func (up *githubUpdater) ReplaceBinary(src string) error {
 	}
 
 	if err := os.Rename(src, dst); err != nil {
+		if errors.Is(err, syscall.EXDEV) {
+			return replaceByCopy(src, dst, info.Mode().Perm())
+		}
+
 		return err
 	}
 
 	return nil
 }
 
+// replaceByCopy replaces destination in one step by copy of source from different file system.
+func replaceByCopy(src, dst string, mode os.FileMode) error {
+	content, err := ioutil.ReadFile(src)
+
+	if err != nil {
+		return err
+	}
+
+	file, err := ioutil.TempFile(filepath.Dir(dst), "."+domain.AppName)
+
+	if err != nil {
+		return err
+	}
+
+	defer os.Remove(file.Name())
+	_, err = file.Write(content)
+
+	if err == nil {
+		err = file.Chmod(mode)
+	}
+
+	if err == nil {
+		err = file.Sync()
+	}
+
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err != nil {
+		return err
+	}
+
+	return os.Rename(file.Name(), dst)
+}
+
 func (up *githubUpdater) ShouldCheck(period int, dirPath string) bool {
 	should := false
 	lastCheckFile := filepath.Join(dirPath, domain.LastCheckFile)
-- 
2.43.0


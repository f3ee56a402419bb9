From 2094cc1e1fdcc5a3af75a3e5eea51e8bace26f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 01/34] fix: map and wildcard indexes failed on properties
 holding arrays

---
 pkg/index/map.go      | 38 +++++++++++++++++++++++++++++++++++---
 pkg/index/wildcard.go |  2 ++
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index cc626a4..bfb035a 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -100,12 +100,21 @@ func (mapIndex *Map) addValueToIndex(
 	value interface{},
 	position record.Position,
 ) error {
-	if valueArray, valueIsArray := value.([]interface{}); valueIsArray {
-		for _, valueArrayValue := range valueArray {
-			if err := mapIndex.addValueToIndex(index, property, valueArrayValue, position); err != nil {
+	if _, valueIsArray := value.([]interface{}); valueIsArray {
+		// The same value can be contained several times in the array,
+		// but the record must only be indexed once for this value
+		distinctValues := make(map[interface{}]bool)
+		if err := mapIndex.getDistinctArrayValues(value, distinctValues); err != nil {
+			return err
+		}
+
+		for distinctValue := range distinctValues {
+			if err := mapIndex.addValueToIndex(index, property, distinctValue, position); err != nil {
 				return err
 			}
 		}
+
+		return nil
 	}
 
 	if _, valueIsMap := value.(map[string]interface{}); valueIsMap {
@@ -123,6 +132,29 @@ func (mapIndex *Map) addValueToIndex(
 	return nil
 }
 
+func (mapIndex *Map) getDistinctArrayValues(
+	value interface{},
+	distinctValues map[interface{}]bool,
+) error {
+	if valueArray, valueIsArray := value.([]interface{}); valueIsArray {
+		for _, valueArrayValue := range valueArray {
+			if err := mapIndex.getDistinctArrayValues(valueArrayValue, distinctValues); err != nil {
+				return err
+			}
+		}
+
+		return nil
+	}
+
+	if _, valueIsMap := value.(map[string]interface{}); valueIsMap {
+		return errors.New("Indexing objects is not supported")
+	}
+
+	distinctValues[value] = true
+
+	return nil
+}
+
 func (mapIndex *Map) GetRecordPositions(
 	input input.Input,
 	filters map[string]interface{},
diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index acf7f23..035575f 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -199,6 +199,8 @@ func (wildcard *Wildcard) addValueToIndex(
 				return err
 			}
 		}
+
+		return nil
 	}
 
 	stringValue, valueIsString := value.(string)
-- 
2.43.0


From db4452fa91bffd580851c1e06f8de93d5cb14319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 02/34] fix: sqlite and fts5 lookups leaked their rows and
 ignored the errors met while reading them

---
 pkg/index/fts5.go   | 28 ++++++++++++++++------------
 pkg/index/sqlite.go | 28 ++++++++++++++++------------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/pkg/index/fts5.go b/pkg/index/fts5.go
index 58b71b8..7331000 100644
--- a/pkg/index/fts5.go
+++ b/pkg/index/fts5.go
@@ -244,20 +244,24 @@ func (sqlite *Fts5) GetRecordPositions(
 		return nil, err
 	}
 
-	return func() (*record.Position, error) {
-		for rows.Next() {
-			var positionValue int64
-			if err := rows.Scan(&positionValue); err != nil {
-				_ = rows.Close()
-				return nil, err
-			}
-
-			position := record.Position(positionValue)
-			return &position, nil
+	// Reading all the positions immediately, so that the database connection
+	// gets released even if the iterator is not consumed up to the end
+	defer rows.Close()
+
+	positions := make(record.PositionList, 0)
+	for rows.Next() {
+		var positionValue int64
+		if err := rows.Scan(&positionValue); err != nil {
+			return nil, err
 		}
 
-		return nil, nil
-	}, nil
+		positions = append(positions, record.Position(positionValue))
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	return positions.Iterate(), nil
 }
 
 func (sqlite *Fts5) Close() error {
diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 99990fc..fcb6322 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -254,20 +254,24 @@ func (sqlite *Sqlite) GetRecordPositions(
 		return nil, err
 	}
 
-	return func() (*record.Position, error) {
-		for rows.Next() {
-			var positionValue int64
-			if err := rows.Scan(&positionValue); err != nil {
-				_ = rows.Close()
-				return nil, err
-			}
-
-			position := record.Position(positionValue)
-			return &position, nil
+	// Reading all the positions immediately, so that the database connection
+	// gets released even if the iterator is not consumed up to the end
+	defer rows.Close()
+
+	positions := make(record.PositionList, 0)
+	for rows.Next() {
+		var positionValue int64
+		if err := rows.Scan(&positionValue); err != nil {
+			return nil, err
 		}
 
-		return nil, nil
-	}, nil
+		positions = append(positions, record.Position(positionValue))
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	return positions.Iterate(), nil
 }
 
 func (sqlite *Sqlite) Close() error {
-- 
2.43.0


From e618f2253ed3d7bc0c6ace55241ac66483739f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 03/34] fix: in-memory sqlite databases were lost when a second
 connection was opened

---
 pkg/index/sqlite/open.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/index/sqlite/open.go b/pkg/index/sqlite/open.go
index 55593a3..34ae694 100644
--- a/pkg/index/sqlite/open.go
+++ b/pkg/index/sqlite/open.go
@@ -13,6 +13,10 @@ func Open(dsn string) (*sql.DB, error) {
 		return nil, err
 	}
 
+	// The pragmas, as well as the whole content of an in-memory database, only exist
+	// in the connection that created them: all the queries must use the same one
+	db.SetMaxOpenConns(1)
+
 	if _, err = db.Exec(`PRAGMA synchronous = OFF;`); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 54a9a8dd14241293bbeaf9ddcf6fc4516181f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 04/34] fix: the RTRIM collation was refused because of a typo

---
 pkg/index/fts5_config.go   | 2 +-
 pkg/index/sqlite_config.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/index/fts5_config.go b/pkg/index/fts5_config.go
index 886ccea..cc720e0 100644
--- a/pkg/index/fts5_config.go
+++ b/pkg/index/fts5_config.go
@@ -7,7 +7,7 @@ import (
 	"github.com/sirupsen/logrus"
 )
 
-var Fts5PropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTIRM"}
+var Fts5PropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTRIM"}
 
 type Fts5Config struct {
 	Name       string   `yaml:"name"`
diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 4e96b6e..1990465 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -9,7 +9,7 @@ import (
 	"strings"
 )
 
-var SqlitePropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTIRM"}
+var SqlitePropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTRIM"}
 
 type SqliteConfig struct {
 	Name       string                  `yaml:"name"`
-- 
2.43.0


From 6365482fd4b9ab33b526021212628b9a0dd5f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 05/34] fix: literal parts of route paths were interpreted as
 regular expressions

---
 pkg/service/http.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index 020f6b3..a884e18 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -152,7 +152,7 @@ func (service *Http) createPathRegexp(
 	}
 
 	parts := paramRegexp.Split(routeConfig.Path, -1)
-	path := parts[0]
+	path := regexp.QuoteMeta(parts[0])
 	for partIndex := 1; partIndex < len(parts); partIndex++ {
 		paramIndex := partIndex - 1
 		paramName := params[paramIndex]
@@ -167,7 +167,7 @@ func (service *Http) createPathRegexp(
 		}
 
 		paramPattern := parser.GetRegexpPattern()
-		path = path + "(" + paramPattern + ")" + parts[partIndex]
+		path = path + "(" + paramPattern + ")" + regexp.QuoteMeta(parts[partIndex])
 	}
 
 	regexp, err := regexp.Compile("^" + path + "$")
-- 
2.43.0


From a342736f9990aea4627915b3f3ecfc21ee9ce96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 06/34] fix: float and boolean route parameters shifted the
 values of the next parameters

---
 pkg/parser/boolean.go | 2 +-
 pkg/parser/float.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/boolean.go b/pkg/parser/boolean.go
index 6951e17..5d31351 100644
--- a/pkg/parser/boolean.go
+++ b/pkg/parser/boolean.go
@@ -35,7 +35,7 @@ func (boolean *Boolean) GetRegexpPattern() string {
 	for _, value := range boolean.config.FalseValues {
 		values = append(values, regexp.QuoteMeta(value))
 	}
-	return "(" + strings.Join(values, "|") + ")"
+	return "(?:" + strings.Join(values, "|") + ")"
 }
 
 func (boolean *Boolean) Parse(value string) (interface{}, error) {
diff --git a/pkg/parser/float.go b/pkg/parser/float.go
index 1ca2846..ed12867 100644
--- a/pkg/parser/float.go
+++ b/pkg/parser/float.go
@@ -34,7 +34,7 @@ func (float *Float) GetRegexpPattern() string {
 	if ignore != "" {
 		ignoreBegin = "[" + ignore + "]*"
 	}
-	return ignoreBegin + "[-]?[0-9" + ignore + "]+([" + separator + "][0-9" + ignore + "]+)?"
+	return ignoreBegin + "[-]?[0-9" + ignore + "]+(?:[" + separator + "][0-9" + ignore + "]+)?"
 }
 
 func (float *Float) Parse(value string) (interface{}, error) {
-- 
2.43.0


From 792617f0b5c3555d34b31c076a7915e62c5374b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 07/34] fix: a dash among the ignored characters of a number
 was interpreted as a range in routes

---
 pkg/parser/float.go   | 5 ++---
 pkg/parser/integer.go | 3 +--
 pkg/parser/parser.go  | 7 +++++++
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/parser/float.go b/pkg/parser/float.go
index ed12867..be8cb0c 100644
--- a/pkg/parser/float.go
+++ b/pkg/parser/float.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"github.com/rodb-io/rodb/pkg/util"
-	"regexp"
 	"strconv"
 	"strings"
 )
@@ -28,8 +27,8 @@ func (float *Float) Primitive() bool {
 }
 
 func (float *Float) GetRegexpPattern() string {
-	separator := regexp.QuoteMeta(float.config.DecimalSeparator)
-	ignore := regexp.QuoteMeta(float.config.IgnoreCharacters)
+	separator := quoteCharacterClass(float.config.DecimalSeparator)
+	ignore := quoteCharacterClass(float.config.IgnoreCharacters)
 	ignoreBegin := ""
 	if ignore != "" {
 		ignoreBegin = "[" + ignore + "]*"
diff --git a/pkg/parser/integer.go b/pkg/parser/integer.go
index b202783..64cf566 100644
--- a/pkg/parser/integer.go
+++ b/pkg/parser/integer.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"github.com/rodb-io/rodb/pkg/util"
-	"regexp"
 	"strconv"
 )
 
@@ -27,7 +26,7 @@ func (integer *Integer) Primitive() bool {
 }
 
 func (integer *Integer) GetRegexpPattern() string {
-	ignore := regexp.QuoteMeta(integer.config.IgnoreCharacters)
+	ignore := quoteCharacterClass(integer.config.IgnoreCharacters)
 	ignoreBegin := ""
 	if ignore != "" {
 		ignoreBegin = "[" + ignore + "]*"
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 14a1507..4ca4624 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -3,6 +3,8 @@ package parser
 import (
 	"fmt"
 	"github.com/sirupsen/logrus"
+	"regexp"
+	"strings"
 )
 
 type Parser interface {
@@ -61,6 +63,11 @@ func Close(parsers List) error {
 	return nil
 }
 
+// Escapes the given characters, so that they can be used inside the brackets of a regular expression
+func quoteCharacterClass(characters string) string {
+	return strings.ReplaceAll(regexp.QuoteMeta(characters), "-", `\-`)
+}
+
 // Compares two values outputted by the parsers
 // returns nil if a = b, true if a < b, false if a > b
 func Compare(a interface{}, b interface{}) (*bool, error) {
-- 
2.43.0


From 4331f5b24c141d4518cdd5830d848ef57a26994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 08/34] fix: a success with an empty body was sent when the
 response could not be encoded

---
 pkg/output/json_array.go  | 10 +++++++++-
 pkg/output/json_object.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index 5614835..08f6088 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -1,6 +1,7 @@
 package output
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -132,7 +133,14 @@ func (jsonArray *JsonArray) Handle(
 		rowsData = append(rowsData, rowData)
 	}
 
-	return json.NewEncoder(sendSucces()).Encode(rowsData)
+	// Some values (such as NaN) cannot be encoded, in which case no success must be sent
+	response := &bytes.Buffer{}
+	if err := json.NewEncoder(response).Encode(rowsData); err != nil {
+		return sendError(err)
+	}
+
+	_, err = response.WriteTo(sendSucces())
+	return err
 }
 
 func (jsonArray *JsonArray) getLimit(params map[string]string) (uint, error) {
diff --git a/pkg/output/json_object.go b/pkg/output/json_object.go
index 8b9f15d..2b70f58 100644
--- a/pkg/output/json_object.go
+++ b/pkg/output/json_object.go
@@ -1,6 +1,7 @@
 package output
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -115,7 +116,14 @@ func (jsonObject *JsonObject) Handle(
 		return sendError(err)
 	}
 
-	return json.NewEncoder(sendSucces()).Encode(data)
+	// Some values (such as NaN) cannot be encoded, in which case no success must be sent
+	response := &bytes.Buffer{}
+	if err := json.NewEncoder(response).Encode(data); err != nil {
+		return sendError(err)
+	}
+
+	_, err = response.WriteTo(sendSucces())
+	return err
 }
 
 func (jsonObject *JsonObject) getRouteFiltersPerIndex(params map[string]string) (map[string]map[string]interface{}, error) {
-- 
2.43.0


From 6bed9c7e0dfaebeb569fb807918e61fa3ec3e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 09/34] fix: the process could exit before the requests being
 handled were answered when shutting down

---
 pkg/service/http.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index a884e18..501f37c 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -311,6 +311,19 @@ func (service *Http) Wait() error {
 }
 
 func (service *Http) Close() error {
+	// Serve returns as soon as the shutdown begins, so the service must
+	// also be waited for until the requests being handled are finished
+	service.waitGroup.Add(1)
+	err := service.shutdown()
+	service.waitGroup.Done()
+	if err != nil {
+		return err
+	}
+
+	return service.Wait()
+}
+
+func (service *Http) shutdown() error {
 	if service.config.Http != nil {
 		if err := service.httpServer.Shutdown(context.Background()); err != nil {
 			return err
@@ -323,5 +336,5 @@ func (service *Http) Close() error {
 		}
 	}
 
-	return service.Wait()
+	return nil
 }
-- 
2.43.0


From de26acedce083288233f3626572e25b4ee84d579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 10/34] fix: the wildcard index was declared as completed
 before its last nodes were written

---
 pkg/index/wildcard.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index 035575f..4025819 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -124,6 +124,12 @@ func (wildcard *Wildcard) createIndex() error {
 		}
 	}
 
+	// The buffered nodes must reach the file before the metadata declares the index
+	// as completed, otherwise an interruption would leave a corrupted, but valid, file
+	if err := indexStream.Flush(); err != nil {
+		return err
+	}
+
 	metadata.SetCompleted(true)
 	if err := metadata.Save(); err != nil {
 		return err
-- 
2.43.0


From f8f65665615e46aa6542c548ee2a89e9eef001da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 11/34] fix: relationships sharing their name with a property
 changed the matches of the other relationships

---
 pkg/output/json_common.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index c787548..6b850a1 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -96,6 +96,13 @@ func loadRelationships(
 	inputs inputPackage.List,
 	rootInput string,
 ) (map[string]interface{}, error) {
+	// The relationships are loaded in a random order and can replace properties having the
+	// same name, so the matches must only depend on the data of the record itself
+	result := make(map[string]interface{}, len(data)+len(relationships))
+	for propertyName, propertyValue := range data {
+		result[propertyName] = propertyValue
+	}
+
 	for relationshipName, relationshipConfig := range relationships {
 		filtersPerIndex, err := getRelationshipFiltersPerIndex(
 			data,
@@ -188,17 +195,17 @@ func loadRelationships(
 		}
 
 		if relationshipConfig.IsArray {
-			data[relationshipName] = relationshipItems
+			result[relationshipName] = relationshipItems
 		} else {
 			if len(relationshipItems) == 0 {
-				data[relationshipName] = nil
+				result[relationshipName] = nil
 			} else {
-				data[relationshipName] = relationshipItems[0]
+				result[relationshipName] = relationshipItems[0]
 			}
 		}
 	}
 
-	return data, nil
+	return result, nil
 }
 
 func getDataFromPosition(
-- 
2.43.0


From 779452e3fe4853cbd36abd52796a3c9648292d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 12/34] fix: matching a relationship on an array or an object
 crashed the request

---
 pkg/index/index.go | 12 ++++++++++++
 pkg/index/map.go   |  4 ++++
 pkg/index/noop.go  |  4 ++++
 3 files changed, 20 insertions(+)

diff --git a/pkg/index/index.go b/pkg/index/index.go
index e8ab251..91ff353 100644
--- a/pkg/index/index.go
+++ b/pkg/index/index.go
@@ -27,6 +27,18 @@ type Config interface {
 
 type List = map[string]Index
 
+// Arrays and objects are not comparable, so they cannot be searched in an index
+func checkPrimitiveFilters(filters map[string]interface{}) error {
+	for propertyName, filter := range filters {
+		switch filter.(type) {
+		case []interface{}, map[string]interface{}:
+			return fmt.Errorf("Cannot filter the value '%v' from property '%v' because it is not a primitive.", filter, propertyName)
+		}
+	}
+
+	return nil
+}
+
 func NewFromConfig(
 	config Config,
 	inputs input.List,
diff --git a/pkg/index/map.go b/pkg/index/map.go
index bfb035a..7b8f3dd 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -167,6 +167,10 @@ func (mapIndex *Map) GetRecordPositions(
 		return nil, fmt.Errorf("This index requires at least one filter.")
 	}
 
+	if err := checkPrimitiveFilters(filters); err != nil {
+		return nil, err
+	}
+
 	individualFiltersResults := make([]record.PositionIterator, 0, len(filters))
 	for propertyName, filter := range filters {
 		if !mapIndex.config.DoesHandleProperty(propertyName) {
diff --git a/pkg/index/noop.go b/pkg/index/noop.go
index 564c1df..09a1b50 100644
--- a/pkg/index/noop.go
+++ b/pkg/index/noop.go
@@ -32,6 +32,10 @@ func (noop *Noop) GetRecordPositions(
 	input input.Input,
 	filters map[string]interface{},
 ) (record.PositionIterator, error) {
+	if err := checkPrimitiveFilters(filters); err != nil {
+		return nil, err
+	}
+
 	inputIterator, end, err := input.IterateAll()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e6e8912cce3c0c1cd1152ab05fbd64506e0bb182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 13/34] fix: negative array indexes in property paths crashed

---
 pkg/input/json_record.go | 2 +-
 pkg/input/record/path.go | 2 +-
 pkg/input/xml_record.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/input/json_record.go b/pkg/input/json_record.go
index fc2b70d..77f4c00 100644
--- a/pkg/input/json_record.go
+++ b/pkg/input/json_record.go
@@ -63,7 +63,7 @@ func (record *JsonRecord) getSubValue(data interface{}, path []string) (interfac
 
 		// Index does not exist: return nil (we must not output
 		// an error in this case, even if there is a sub-path)
-		if indexInPath >= len(dataArray) {
+		if indexInPath < 0 || indexInPath >= len(dataArray) {
 			return nil, nil
 		}
 
diff --git a/pkg/input/record/path.go b/pkg/input/record/path.go
index 17cfce0..d311f64 100644
--- a/pkg/input/record/path.go
+++ b/pkg/input/record/path.go
@@ -27,7 +27,7 @@ func GetSubValue(value interface{}, path []string) (interface{}, error) {
 		}
 
 		valueArray := value.([]interface{})
-		if index >= len(valueArray) {
+		if index < 0 || index >= len(valueArray) {
 			// Not having the required index is a common case that
 			// should not trigger an error, but get a nil value
 			return nil, nil
diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index 2f98b20..c9021ba 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -225,7 +225,7 @@ func (record *XmlRecord) getSubArrayValue(
 		return nil, fmt.Errorf("Cannot get sub-path '%v' because the requested key is '%v', but the value is an array", path, path[0])
 	}
 
-	if requestedIndex >= len(nodes) {
+	if requestedIndex < 0 || requestedIndex >= len(nodes) {
 		// Not having the required index is a common case that
 		// should not trigger an error, but get a nil value
 		return nil, nil
-- 
2.43.0


From 0c22a2bfa887eed4cb3ef6c3117ed079dea70e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 14/34] fix: explicit null values could not be traversed by
 property paths, unlike missing ones

---
 pkg/input/json_record.go | 5 +++++
 pkg/input/record/path.go | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/pkg/input/json_record.go b/pkg/input/json_record.go
index 77f4c00..c1830cf 100644
--- a/pkg/input/json_record.go
+++ b/pkg/input/json_record.go
@@ -46,6 +46,11 @@ func (record *JsonRecord) getSubValue(data interface{}, path []string) (interfac
 		return data, nil
 	}
 
+	if data == nil {
+		// Same as for the properties that does not exist
+		return nil, nil
+	}
+
 	if dataMap, dataIsMap := data.(map[string]interface{}); dataIsMap {
 		property, propertyExists := dataMap[path[0]]
 		if !propertyExists {
diff --git a/pkg/input/record/path.go b/pkg/input/record/path.go
index d311f64..b6e3a4f 100644
--- a/pkg/input/record/path.go
+++ b/pkg/input/record/path.go
@@ -11,6 +11,9 @@ func GetSubValue(value interface{}, path []string) (interface{}, error) {
 	}
 
 	switch value.(type) {
+	case nil:
+		// Same as for the properties that does not exist
+		return nil, nil
 	case map[string]interface{}:
 		mapValue, mapValueExists := value.(map[string]interface{})[path[0]]
 		if !mapValueExists {
-- 
2.43.0


From 9f7372b1fb95a7a537efe6fc858caa18907f5b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 15/34] fix: json inputs were silently truncated at unexpected
 closing brackets

---
 pkg/input/json.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/input/json.go b/pkg/input/json.go
index 58e1fa2..33c7335 100644
--- a/pkg/input/json.go
+++ b/pkg/input/json.go
@@ -127,9 +127,9 @@ func (jsonInput *Json) IterateAll() (record.Iterator, func() error, error) {
 	jsonDecoder := json.NewDecoder(reader)
 
 	iterator := func() (record.Record, error) {
-		if !jsonDecoder.More() {
-			return nil, nil
-		}
+		// Moving to the beginning of the next value. The result is ignored because it also
+		// indicates the end when there is an unexpected closing bracket, which is an error
+		jsonDecoder.More()
 
 		position := jsonDecoder.InputOffset()
 
-- 
2.43.0


From 9516ac2a9ce6cd45324ae9ed3f3537fd49d6ceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 16/34] fix: relationships were not properly sorted when some
 of the values were missing

---
 pkg/input/record/sort.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/input/record/sort.go b/pkg/input/record/sort.go
index 4ff1408..7b81f8c 100644
--- a/pkg/input/record/sort.go
+++ b/pkg/input/record/sort.go
@@ -34,6 +34,16 @@ func (sorter *recordListSorter) Less(i int, j int) bool {
 			sort.Logger.Errorf("Unhandlable error during sort operation on property '%v': %v", sort.Property, err)
 		}
 
+		// The missing values are always lower than the other ones. They cannot be considered
+		// equal to any other value, because this would not be a consistent ordering
+		if iValue == nil || jValue == nil {
+			if iValue == nil && jValue == nil {
+				continue
+			}
+
+			return (iValue == nil) == sort.IsAscending()
+		}
+
 		result, err := parser.Compare(iValue, jValue)
 		if err != nil {
 			sort.Logger.Errorf("Unhandlable error during sort operation on property '%v': %v", sort.Property, err)
-- 
2.43.0


From 54909ec10f8fdeaaf78d1190115d26f3e95cd775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 17/34] fix: empty csv files and headers with another number of
 columns were refused when ignoring the first row

---
 pkg/input/csv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/input/csv.go b/pkg/input/csv.go
index 3e92cf3..62d858e 100644
--- a/pkg/input/csv.go
+++ b/pkg/input/csv.go
@@ -183,7 +183,7 @@ func (csvInput *Csv) IterateAll() (record.Iterator, func() error, error) {
 
 	if csvInput.config.IgnoreFirstRow {
 		_, err = csvReader.Read()
-		if err != nil {
+		if err != nil && err != io.EOF && !errors.Is(err, csv.ErrFieldCount) {
 			return nil, nil, err
 		}
 	}
-- 
2.43.0


From cd3b0a1f714cadf3c0263a836dc3c997fec81bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 18/34] fix: csv delimiters encoded on several bytes were
 refused

---
 pkg/input/csv_config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index 8abae79..360ba83 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -6,6 +6,7 @@ import (
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/sirupsen/logrus"
 	"os"
+	"unicode/utf8"
 )
 
 type CsvConfig struct {
@@ -77,7 +78,7 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 		config.Delimiter = ","
 	}
 
-	if len(config.Delimiter) > 1 {
+	if utf8.RuneCountInString(config.Delimiter) > 1 {
 		return errors.New("csv.delimiter must be a single character")
 	}
 
-- 
2.43.0


From 084d429cd665df9e7c73f0b37f52082a279e8044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 19/34] fix: the charset decoder of the string parsers was
 shared by the concurrent requests

---
 pkg/parser/string.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pkg/parser/string.go b/pkg/parser/string.go
index 99d6f92..cf604ec 100644
--- a/pkg/parser/string.go
+++ b/pkg/parser/string.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"fmt"
 	"golang.org/x/text/encoding"
 	"golang.org/x/text/encoding/ianaindex"
 	"golang.org/x/text/transform"
@@ -9,26 +10,28 @@ import (
 )
 
 type String struct {
-	config  *StringConfig
-	decoder *encoding.Decoder
+	config   *StringConfig
+	encoding encoding.Encoding
 }
 
 func NewString(
 	config *StringConfig,
 ) (*String, error) {
-	var decoder *encoding.Decoder = nil
+	var charset encoding.Encoding = nil
 	if config.ConvertFromCharset != "" {
-		encoding, err := ianaindex.MIME.Encoding(config.ConvertFromCharset)
+		var err error
+		charset, err = ianaindex.MIME.Encoding(config.ConvertFromCharset)
 		if err != nil {
 			return nil, err
 		}
-
-		decoder = encoding.NewDecoder()
+		if charset == nil {
+			return nil, fmt.Errorf("The charset '%v' is not supported.", config.ConvertFromCharset)
+		}
 	}
 
 	return &String{
-		config:  config,
-		decoder: decoder,
+		config:   config,
+		encoding: charset,
 	}, nil
 }
 
@@ -46,7 +49,8 @@ func (str *String) GetRegexpPattern() string {
 
 func (str *String) Parse(value string) (interface{}, error) {
 	if str.config.ConvertFromCharset != "" {
-		rInUTF8 := transform.NewReader(strings.NewReader(value), str.decoder)
+		// The decoders have an internal state, so they cannot be shared by concurrent requests
+		rInUTF8 := transform.NewReader(strings.NewReader(value), str.encoding.NewDecoder())
 		convertedValue, err := ioutil.ReadAll(rInUTF8)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From a554a0da1da885f263267f2093b8e084907309b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 20/34] fix: the xpath expressions were evaluated by several
 requests at the same time

---
 pkg/input/xml_config.go | 12 ++++++++++++
 pkg/input/xml_record.go |  8 ++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index ef4be62..b12c41c 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -3,10 +3,12 @@ package input
 import (
 	"errors"
 	"fmt"
+	"github.com/antchfx/xmlquery"
 	"github.com/antchfx/xpath"
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/sirupsen/logrus"
 	"os"
+	"sync"
 )
 
 type XmlInputPropertyType string
@@ -35,6 +37,7 @@ type XmlPropertyConfig struct {
 	Items         *XmlPropertyConfig   `yaml:"items"`
 	Properties    []*XmlPropertyConfig `yaml:"properties"`
 	CompiledXPath *xpath.Expr
+	evaluateLock  sync.Mutex
 }
 
 func (config *XmlConfig) GetName() string {
@@ -91,6 +94,15 @@ func (config *XmlConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	return nil
 }
 
+// The compiled expressions hold the state of their evaluation,
+// so they cannot be evaluated by several requests at the same time
+func (config *XmlPropertyConfig) evaluateXPath(node *xmlquery.Node) interface{} {
+	config.evaluateLock.Lock()
+	defer config.evaluateLock.Unlock()
+
+	return config.CompiledXPath.Evaluate(xmlquery.CreateXPathNavigator(node))
+}
+
 func (config *XmlPropertyConfig) Validate(
 	parsers map[string]parser.Config,
 	nameRequired bool,
diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index c9021ba..591b338 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -98,9 +98,7 @@ func (record *XmlRecord) getAllValues(
 		return record.nodeIteratorToObject(nodes, currentConfig)
 	}
 
-	result := currentConfig.CompiledXPath.Evaluate(
-		xmlquery.CreateXPathNavigator(node),
-	)
+	result := currentConfig.evaluateXPath(node)
 
 	if currentConfig.Type != XmlInputPropertyTypePrimitive {
 		return nil, record.xpathError(currentConfig, fmt.Sprintf("got a primitive value, but the property does not have a primitive type"))
@@ -275,9 +273,7 @@ func (record *XmlRecord) getSubValue(
 		return record.getSubObjectValue(nodes, currentConfig, path)
 	}
 
-	result := currentConfig.CompiledXPath.Evaluate(
-		xmlquery.CreateXPathNavigator(node),
-	)
+	result := currentConfig.evaluateXPath(node)
 
 	// From here, we only have to handle the primitive types returned by the xpath
 
-- 
2.43.0


From db075f0c72c2691a34f5dc3f8b5fc40afecd0308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 21/34] fix: reading an xml record depended on the records
 which were read before

---
 pkg/input/xml.go | 142 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 131 insertions(+), 11 deletions(-)

diff --git a/pkg/input/xml.go b/pkg/input/xml.go
index 2141dd7..8b42e01 100644
--- a/pkg/input/xml.go
+++ b/pkg/input/xml.go
@@ -2,6 +2,7 @@ package input
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/xml"
 	"fmt"
 	"github.com/antchfx/xmlquery"
@@ -11,6 +12,8 @@ import (
 	"github.com/rodb-io/rodb/pkg/util"
 	"io"
 	"os"
+	"sort"
+	"strings"
 	"sync"
 	"time"
 )
@@ -27,11 +30,17 @@ type Xml struct {
 	readerBuffer *bufio.Reader
 	readerLock   sync.Mutex
 	xmlFile      *os.File
-	xmlParser    *xmlquery.StreamParser
+	openTags     []xmlOpenTags
 	parsers      parser.List
 	watcher      *fsnotify.Watcher
 }
 
+// The tags which are still open at (and after) the given position of the file
+type xmlOpenTags struct {
+	position record.Position
+	tags     string
+}
+
 type xmlTempRecordNode struct {
 	XMLName  xml.Name
 	Attr     []xml.Attr `xml:",any,attr"`
@@ -69,15 +78,6 @@ func NewXml(
 	xmlInput.reader = io.ReadSeeker(file)
 	xmlInput.readerBuffer = bufio.NewReader(xmlInput.reader)
 
-	xmlInput.xmlParser, err = xmlquery.CreateStreamParserWithOptions(
-		xmlInput.readerBuffer,
-		xmlParserOptions,
-		xmlInput.config.RecordXPath,
-	)
-	if err != nil {
-		return nil, err
-	}
-
 	if err := xmlInput.watcher.Add(config.Path); err != nil {
 		return nil, err
 	}
@@ -93,11 +93,28 @@ func (xmlInput *Xml) Get(position record.Position) (record.Record, error) {
 	xmlInput.readerLock.Lock()
 	defer xmlInput.readerLock.Unlock()
 
+	openTags, err := xmlInput.getOpenTagsAt(position)
+	if err != nil {
+		return nil, err
+	}
+
 	if err := util.SetBufferedReaderOffset(xmlInput.reader, xmlInput.readerBuffer, position); err != nil {
 		return nil, err
 	}
 
-	node, err := xmlInput.xmlParser.Read()
+	// Creating a new parser each time, because it would otherwise keep the context of the
+	// previously read position. The parent elements of the record, which are opened before
+	// the requested position, are added back so that they can be matched by the xpath.
+	xmlParser, err := xmlquery.CreateStreamParserWithOptions(
+		io.MultiReader(strings.NewReader(openTags), xmlInput.readerBuffer),
+		xmlParserOptions,
+		xmlInput.config.RecordXPath,
+	)
+	if err != nil {
+		return nil, err
+	}
+
+	node, err := xmlParser.Read()
 	if err == io.EOF {
 		return nil, fmt.Errorf("Did not find an XML record at position %v", position)
 	} else if err != nil {
@@ -107,6 +124,109 @@ func (xmlInput *Xml) Get(position record.Position) (record.Record, error) {
 	return NewXmlRecord(xmlInput.config, node, xmlInput.parsers, position)
 }
 
+// Gets the tags that are still open at the given position, which must be the one of a record
+func (xmlInput *Xml) getOpenTagsAt(position record.Position) (string, error) {
+	if position == 0 {
+		return "", nil
+	}
+
+	if xmlInput.openTags == nil {
+		if err := xmlInput.loadOpenTags(); err != nil {
+			return "", err
+		}
+	}
+
+	index := sort.Search(len(xmlInput.openTags), func(i int) bool {
+		return xmlInput.openTags[i].position > position
+	})
+	if index == 0 {
+		return "", nil
+	}
+
+	return xmlInput.openTags[index-1].tags, nil
+}
+
+func (xmlInput *Xml) loadOpenTags() error {
+	file, err := os.Open(xmlInput.config.Path)
+	if err != nil {
+		return err
+	}
+	defer file.Close()
+
+	readerBuffer := bufio.NewReader(file)
+	xmlParser, err := xmlquery.CreateStreamParserWithOptions(
+		readerBuffer,
+		xmlParserOptions,
+		xmlInput.config.RecordXPath,
+	)
+	if err != nil {
+		return err
+	}
+
+	openTags := make([]xmlOpenTags, 0)
+	var lastParent *xmlquery.Node = nil
+	for {
+		node, err := xmlParser.Read()
+		if err != nil {
+			// There cannot be any record after the end or the first error
+			break
+		}
+
+		// The position of a record is the end of the previous one,
+		// so the open tags are the ones of the parents of the latter
+		if node.Parent != lastParent {
+			position, err := util.GetBufferedReaderOffset(file, readerBuffer)
+			if err != nil {
+				return err
+			}
+
+			lastParent = node.Parent
+			tags := getXmlOpenTags(node.Parent)
+			if len(openTags) == 0 || openTags[len(openTags)-1].tags != tags {
+				openTags = append(openTags, xmlOpenTags{
+					position: position,
+					tags:     tags,
+				})
+			}
+		}
+	}
+	xmlInput.openTags = openTags
+
+	return nil
+}
+
+// Gets the opening tags of the given node and all of it's parents
+func getXmlOpenTags(node *xmlquery.Node) string {
+	tags := ""
+	for ; node != nil; node = node.Parent {
+		if node.Type != xmlquery.ElementNode {
+			continue
+		}
+
+		tag := &bytes.Buffer{}
+		tag.WriteString("<")
+		if node.Prefix != "" {
+			tag.WriteString(node.Prefix + ":")
+		}
+		tag.WriteString(node.Data)
+		for _, attribute := range node.Attr {
+			tag.WriteString(" ")
+			if attribute.Name.Space != "" {
+				tag.WriteString(attribute.Name.Space + ":")
+			}
+			tag.WriteString(attribute.Name.Local + `="`)
+			// Never fails when writing to a buffer
+			_ = xml.EscapeText(tag, []byte(attribute.Value))
+			tag.WriteString(`"`)
+		}
+		tag.WriteString(">")
+
+		tags = tag.String() + tags
+	}
+
+	return tags
+}
+
 func (xmlInput *Xml) Size() (int64, error) {
 	fileInfo, err := os.Stat(xmlInput.config.Path)
 	if err != nil {
-- 
2.43.0


From ec134728890ed7793515a1583bfd24659ca39762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 22/34] fix: the missing numbers of xml inputs had an undefined
 value or made the response fail

---
 pkg/input/xml_record.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index 591b338..d52176b 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -6,6 +6,7 @@ import (
 	"github.com/antchfx/xpath"
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	parserPackage "github.com/rodb-io/rodb/pkg/parser"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -187,8 +188,18 @@ func (record *XmlRecord) handleNumericValue(config *XmlPropertyConfig, value flo
 	}
 
 	if _, isFloatParser := parser.(*parserPackage.Float); isFloatParser {
+		if math.IsNaN(value) {
+			// The node does not exist or is not a number
+			return nil, nil
+		}
+
 		return value, nil
 	} else if _, isIntegerParser := parser.(*parserPackage.Integer); isIntegerParser {
+		if math.IsNaN(value) {
+			// The node does not exist or is not a number
+			return nil, nil
+		}
+
 		return int64(value), nil
 	} else {
 		return nil, record.xpathError(config, fmt.Sprintf("got a numeric value, but the property does not have a numeric parser"))
-- 
2.43.0


From c899ab93889cd16009b2aae655e437b2232ca0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 23/34] fix: a split parser referencing itself crashed when it
 was used

---
 pkg/parser/split_config.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/parser/split_config.go b/pkg/parser/split_config.go
index 9b95813..cf496a6 100644
--- a/pkg/parser/split_config.go
+++ b/pkg/parser/split_config.go
@@ -62,6 +62,20 @@ func (config *SplitConfig) Validate(parsers map[string]Config, log *logrus.Entry
 		return fmt.Errorf("Parser '%v' not found in parsers list.", config.Parser)
 	}
 
+	// Following the chain of split parsers: it must end with another type of parser
+	usedNames := map[string]bool{config.Name: true}
+	for name := config.Parser; ; {
+		splitConfig, isSplit := parsers[name].(*SplitConfig)
+		if !isSplit {
+			break
+		}
+		if usedNames[name] {
+			return fmt.Errorf("split.parser: The parser '%v' references itself.", name)
+		}
+		usedNames[name] = true
+		name = splitConfig.Parser
+	}
+
 	return nil
 }
 
-- 
2.43.0


From c8d03f9fd9031d2a0f11ca1eeaaab2e67ee05b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 24/34] fix: a wildcard filter which is not a string was
 randomly ignored when another filter matched nothing

---
 pkg/index/wildcard.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index 4025819..15f70e0 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -239,22 +239,28 @@ func (wildcard *Wildcard) GetRecordPositions(
 		return nil, fmt.Errorf("This index requires at least one filter.")
 	}
 
-	individualFiltersResults := make([]record.PositionIterator, 0, len(filters))
+	// All the filters are checked before using any of them, because they are in a random order
+	stringFilters := make(map[string]string, len(filters))
 	for propertyName, filter := range filters {
 		if !wildcard.config.DoesHandleProperty(propertyName) {
 			return nil, fmt.Errorf("This index does not handle the property '%v'.", propertyName)
 		}
 
-		indexedTree, foundIndexedValues := wildcard.index[propertyName]
-		if !foundIndexedValues {
-			return record.EmptyIterator, nil
-		}
-
 		stringFilter, filterIsString := filter.(string)
 		if !filterIsString {
 			return nil, fmt.Errorf("Cannot filter the value '%v' from property '%v' because it is not a string.", filter, propertyName)
 		}
 
+		stringFilters[propertyName] = stringFilter
+	}
+
+	individualFiltersResults := make([]record.PositionIterator, 0, len(filters))
+	for propertyName, stringFilter := range stringFilters {
+		indexedTree, foundIndexedValues := wildcard.index[propertyName]
+		if !foundIndexedValues {
+			return record.EmptyIterator, nil
+		}
+
 		if wildcard.config.ShouldIgnoreCase() {
 			stringFilter = strings.ToLower(stringFilter)
 		}
-- 
2.43.0


From 5655f129c1be6be097c14c080b49ea07a215450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 25/34] fix: the answer depended on the random order of the
 filters when some records could not be read

---
 pkg/index/noop.go         | 12 +++++++++++-
 pkg/output/json_common.go | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/pkg/index/noop.go b/pkg/index/noop.go
index 09a1b50..121b8da 100644
--- a/pkg/index/noop.go
+++ b/pkg/index/noop.go
@@ -5,6 +5,7 @@ import (
 	"github.com/rodb-io/rodb/pkg/input"
 	"github.com/rodb-io/rodb/pkg/input/record"
 	"reflect"
+	"sort"
 )
 
 // A noop index is able to search into any data,
@@ -36,6 +37,14 @@ func (noop *Noop) GetRecordPositions(
 		return nil, err
 	}
 
+	// Always checking the properties in the same order, because the ones
+	// after the first mismatch (and their errors) are ignored
+	propertyNames := make([]string, 0, len(filters))
+	for propertyName := range filters {
+		propertyNames = append(propertyNames, propertyName)
+	}
+	sort.Strings(propertyNames)
+
 	inputIterator, end, err := input.IterateAll()
 	if err != nil {
 		return nil, err
@@ -58,7 +67,8 @@ func (noop *Noop) GetRecordPositions(
 			}
 
 			matches := true
-			for propertyName, filter := range filters {
+			for _, propertyName := range propertyNames {
+				filter := filters[propertyName]
 				value, err := record.Get(propertyName)
 				if err != nil {
 					return nil, err
diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index 6b850a1..5bffc64 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -7,6 +7,7 @@ import (
 	inputPackage "github.com/rodb-io/rodb/pkg/input"
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	relationshipPackage "github.com/rodb-io/rodb/pkg/output/relationship"
+	"sort"
 )
 
 func checkRelationshipMatches(
@@ -70,8 +71,17 @@ func getFilteredRecordPositionsPerIndex(
 		return []recordPackage.PositionIterator{iterator}, nil
 	}
 
+	// Always using the indexes in the same order, because joining them can
+	// stop (and ignore the next errors) as soon as one of them has no result
+	indexNames := make([]string, 0, len(filtersPerIndex))
+	for indexName := range filtersPerIndex {
+		indexNames = append(indexNames, indexName)
+	}
+	sort.Strings(indexNames)
+
 	iterators := make([]recordPackage.PositionIterator, 0, len(filtersPerIndex))
-	for indexName, filters := range filtersPerIndex {
+	for _, indexName := range indexNames {
+		filters := filtersPerIndex[indexName]
 		index, indexExists := indexes[indexName]
 		if !indexExists {
 			return nil, fmt.Errorf("Index '%v' not found in indexes list.", indexName)
-- 
2.43.0


From e2549f5f3c6be097499331336770472afe14c254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 26/34] fix: new connections were still accepted while waiting
 for the requests of another listener when shutting down

---
 pkg/service/http.go    | 24 ++++++++++++++++--------
 pkg/service/service.go | 16 +++++++++++++---
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index 501f37c..5ff5fe2 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -324,17 +324,25 @@ func (service *Http) Close() error {
 }
 
 func (service *Http) shutdown() error {
-	if service.config.Http != nil {
-		if err := service.httpServer.Shutdown(context.Background()); err != nil {
-			return err
+	// Shutting down a server waits for the requests it is handling, during
+	// which the other one must not accept new connections anymore
+	httpsResult := make(chan error, 1)
+	go func() {
+		if service.config.Https != nil {
+			httpsResult <- service.httpsServer.Shutdown(context.Background())
+		} else {
+			httpsResult <- nil
 		}
+	}()
+
+	var httpErr error
+	if service.config.Http != nil {
+		httpErr = service.httpServer.Shutdown(context.Background())
 	}
 
-	if service.config.Https != nil {
-		if err := service.httpsServer.Shutdown(context.Background()); err != nil {
-			return err
-		}
+	if err := <-httpsResult; err != nil {
+		return err
 	}
 
-	return nil
+	return httpErr
 }
diff --git a/pkg/service/service.go b/pkg/service/service.go
index bade741..2df20e4 100644
--- a/pkg/service/service.go
+++ b/pkg/service/service.go
@@ -62,11 +62,21 @@ func Wait(services List) error {
 }
 
 func Close(services List) error {
+	// Closing a service waits for the requests it is handling, during
+	// which the other ones must not accept new connections anymore
+	results := make(chan error, len(services))
 	for _, service := range services {
-		if err := service.Close(); err != nil {
-			return err
+		go func(service Service) {
+			results <- service.Close()
+		}(service)
+	}
+
+	var closeErr error
+	for range services {
+		if err := <-results; err != nil && closeErr == nil {
+			closeErr = err
 		}
 	}
 
-	return nil
+	return closeErr
 }
-- 
2.43.0


From e1885ac71563cee572837f9507bf75bc9bbc84f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:43 +0000
Subject: [PATCH 27/34] fix: an interrupt received while the services were
 starting killed the requests being handled

---
 cmd/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 97af3f1..4d8ec0e 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -93,6 +93,11 @@ func main() {
 		}
 	})()
 
+	// The services accept requests as soon as they are created, so
+	// the signals must already be handled gracefully at this point
+	signals := make(chan os.Signal, 1)
+	signal.Notify(signals, os.Interrupt, os.Kill)
+
 	services, err := service.NewFromConfigs(config.Services, outputs, log)
 	if err != nil {
 		log.Errorf("Error initializing services: %v", err)
@@ -100,8 +105,6 @@ func main() {
 		return
 	}
 	go (func() {
-		signals := make(chan os.Signal, 1)
-		signal.Notify(signals, os.Interrupt, os.Kill)
 		signal := <-signals
 		log.Printf("Received signal '%v'. Shutting down...", signal.String())
 
-- 
2.43.0


From 9a92d9df43d211d99712121af1c2b19f919816ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:36 +0000
Subject: [PATCH 28/34] fix: the replacement or removal of an input file was
 not noticed

---
 pkg/input/csv.go     |  3 ++-
 pkg/input/json.go    |  3 ++-
 pkg/input/xml.go     |  3 ++-
 pkg/util/fsnotify.go | 28 +++++++++++++++++++++++++++-
 4 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/pkg/input/csv.go b/pkg/input/csv.go
index 62d858e..b51bb7e 100644
--- a/pkg/input/csv.go
+++ b/pkg/input/csv.go
@@ -45,6 +45,7 @@ func NewCsv(
 		csvInput.watcher,
 		csvInput.config.ShouldDieOnInputChange(),
 		csvInput.config.Logger,
+		config.Path,
 	)
 
 	reader, readerBuffer, csvReader, file, err := csvInput.open()
@@ -56,7 +57,7 @@ func NewCsv(
 	csvInput.csvFile = file
 	csvInput.csvReader = csvReader
 
-	if err := csvInput.watcher.Add(config.Path); err != nil {
+	if err := util.WatchFile(csvInput.watcher, config.Path); err != nil {
 		return nil, err
 	}
 
diff --git a/pkg/input/json.go b/pkg/input/json.go
index 33c7335..4784f9d 100644
--- a/pkg/input/json.go
+++ b/pkg/input/json.go
@@ -36,6 +36,7 @@ func NewJson(config *JsonConfig) (*Json, error) {
 		jsonInput.watcher,
 		jsonInput.config.ShouldDieOnInputChange(),
 		jsonInput.config.Logger,
+		config.Path,
 	)
 
 	reader, file, err := jsonInput.open()
@@ -51,7 +52,7 @@ func NewJson(config *JsonConfig) (*Json, error) {
 		return nil, err
 	}
 
-	if err := jsonInput.watcher.Add(config.Path); err != nil {
+	if err := util.WatchFile(jsonInput.watcher, config.Path); err != nil {
 		return nil, err
 	}
 
diff --git a/pkg/input/xml.go b/pkg/input/xml.go
index 8b42e01..568f1fc 100644
--- a/pkg/input/xml.go
+++ b/pkg/input/xml.go
@@ -67,6 +67,7 @@ func NewXml(
 		xmlInput.watcher,
 		xmlInput.config.ShouldDieOnInputChange(),
 		xmlInput.config.Logger,
+		config.Path,
 	)
 
 	file, err := os.Open(xmlInput.config.Path)
@@ -78,7 +79,7 @@ func NewXml(
 	xmlInput.reader = io.ReadSeeker(file)
 	xmlInput.readerBuffer = bufio.NewReader(xmlInput.reader)
 
-	if err := xmlInput.watcher.Add(config.Path); err != nil {
+	if err := util.WatchFile(xmlInput.watcher, config.Path); err != nil {
 		return nil, err
 	}
 
diff --git a/pkg/util/fsnotify.go b/pkg/util/fsnotify.go
index d5aeecf..5b60bf0 100644
--- a/pkg/util/fsnotify.go
+++ b/pkg/util/fsnotify.go
@@ -4,13 +4,39 @@ import (
 	"fmt"
 	"github.com/fsnotify/fsnotify"
 	"github.com/sirupsen/logrus"
+	"path/filepath"
 )
 
+// Watches the given file, and the directory containing it because
+// it's the only way to be notified of its replacement or removal
+func WatchFile(watcher *fsnotify.Watcher, path string) error {
+	if err := watcher.Add(path); err != nil {
+		return err
+	}
+
+	return watcher.Add(filepath.Dir(path))
+}
+
+// If any path is given, the events about other files are ignored
 func StartFilesystemWatchProcess(
 	watcher *fsnotify.Watcher,
 	dieOnChange bool,
 	logger *logrus.Entry,
+	paths ...string,
 ) {
+	isWatched := func(name string) bool {
+		for _, path := range paths {
+			if filepath.Clean(path) == filepath.Clean(name) {
+				return true
+			}
+		}
+		return len(paths) == 0
+	}
+	changes := fsnotify.Write
+	if len(paths) > 0 {
+		changes |= fsnotify.Create | fsnotify.Remove | fsnotify.Rename
+	}
+
 	go func() {
 		for {
 			select {
@@ -18,7 +44,7 @@ func StartFilesystemWatchProcess(
 				if !ok {
 					return
 				}
-				if event.Op&fsnotify.Write == fsnotify.Write {
+				if event.Op&changes != 0 && isWatched(event.Name) {
 					message := fmt.Sprintf("The file '%v' has been modified by another process", event.Name)
 					if dieOnChange {
 						logger.Fatalln(message + ". Quitting because it may have corrupted data and 'dieOnInputChange' is 'true'.")
-- 
2.43.0


From 46a7859b33e95e26fea1b837c507dccd7310e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:11 +0000
Subject: [PATCH 29/34] fix: an inaccessible path in the configuration crashed
 the process

Only the absence of the file was checked: with any other error (not a
directory, permission denied...), the missing file information was used.
---
 pkg/input/csv_config.go    | 3 +++
 pkg/input/json_config.go   | 4 ++++
 pkg/input/xml_config.go    | 3 +++
 pkg/service/http_config.go | 6 ++++++
 4 files changed, 16 insertions(+)

diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index 360ba83..2e95599 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -69,6 +69,9 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	if os.IsNotExist(err) {
 		return errors.New("The csv file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("Cannot access the csv file '%v': %w", config.Path, err)
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/input/json_config.go b/pkg/input/json_config.go
index 489cba3..89dbd3c 100644
--- a/pkg/input/json_config.go
+++ b/pkg/input/json_config.go
@@ -2,6 +2,7 @@ package input
 
 import (
 	"errors"
+	"fmt"
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/sirupsen/logrus"
 	"os"
@@ -40,6 +41,9 @@ func (config *JsonConfig) Validate(parsers map[string]parser.Config, log *logrus
 	if os.IsNotExist(err) {
 		return errors.New("The json file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("Cannot access the json file '%v': %w", config.Path, err)
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index b12c41c..a449709 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -74,6 +74,9 @@ func (config *XmlConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	if os.IsNotExist(err) {
 		return errors.New("The xml file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("Cannot access the xml file '%v': %w", config.Path, err)
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index 98c78e0..1519f6a 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -109,6 +109,9 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 	if os.IsNotExist(err) {
 		return errors.New("certificatePath: The file '" + config.CertificatePath + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("certificatePath: Cannot access the file '%v': %w", config.CertificatePath, err)
+	}
 	if certificateFileInfo.IsDir() {
 		return errors.New("certificatePath: The path '" + config.CertificatePath + "' is not a file")
 	}
@@ -120,6 +123,9 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 	if os.IsNotExist(err) {
 		return errors.New("privateKeyFile: The file '" + config.PrivateKeyPath + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("privateKeyFile: Cannot access the file '%v': %w", config.PrivateKeyPath, err)
+	}
 	if privateKeyFile.IsDir() {
 		return errors.New("privateKeyFile: The path '" + config.PrivateKeyPath + "' is not a file")
 	}
-- 
2.43.0


From 586b67d26e5458dbf2f71897bdb9da6292d06f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:15 +0000
Subject: [PATCH 30/34] fix: a csv delimiter which the csv reader refuses was
 accepted

The service was started, but none of the records could be read.
---
 pkg/input/csv_config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index 2e95599..bfa4e9b 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -84,6 +84,9 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	if utf8.RuneCountInString(config.Delimiter) > 1 {
 		return errors.New("csv.delimiter must be a single character")
 	}
+	if delimiter, _ := utf8.DecodeRuneInString(config.Delimiter); delimiter == '"' || delimiter == '\r' || delimiter == '\n' || delimiter == utf8.RuneError {
+		return fmt.Errorf("csv.delimiter: the character %q cannot be used as a delimiter", delimiter)
+	}
 
 	config.ColumnIndexByName = make(map[string]int)
 	for columnIndex, column := range config.Columns {
-- 
2.43.0


From 18733021c94a3947065524627b9e1126679c36d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:19 +0000
Subject: [PATCH 31/34] fix: an https service with an invalid certificate was
 silently not listening

The certificate and the private key were only loaded by the goroutine
serving the requests, whose error is not reported before the shutdown.
---
 pkg/service/http_config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index 1519f6a..c05dc19 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -1,6 +1,7 @@
 package service
 
 import (
+	"crypto/tls"
 	"errors"
 	"fmt"
 	"github.com/rodb-io/rodb/pkg/output"
@@ -130,6 +131,10 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 		return errors.New("privateKeyFile: The path '" + config.PrivateKeyPath + "' is not a file")
 	}
 
+	if _, err := tls.LoadX509KeyPair(config.CertificatePath, config.PrivateKeyPath); err != nil {
+		return fmt.Errorf("Cannot load the certificate and the private key: %w", err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 7bffa139999c87dd2a546d4d66e06957a98b241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:23 +0000
Subject: [PATCH 32/34] fix: an empty item in a list or map of the
 configuration crashed the process

---
 pkg/config/config.go              | 25 ++++++++++++++++++++-----
 pkg/index/sqlite_config.go        |  4 ++++
 pkg/input/csv_config.go           |  4 ++++
 pkg/input/record/sort_config.go   |  5 +++++
 pkg/input/xml_config.go           |  4 ++++
 pkg/output/parameter/config.go    |  4 ++++
 pkg/output/relationship/config.go |  9 +++++++++
 pkg/service/http_config.go        |  4 ++++
 8 files changed, 54 insertions(+), 5 deletions(-)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 6d79d5e..37ce37d 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -65,35 +65,50 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		Outputs:  map[string]output.Config{},
 	}
 
-	for _, parser := range parsedConfig.Parsers {
+	for i, parser := range parsedConfig.Parsers {
+		if parser.parser == nil {
+			return nil, fmt.Errorf("parsers[%v] is empty.", i)
+		}
 		name := parser.parser.GetName()
 		if _, exists := config.Parsers[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for parser.", name)
 		}
 		config.Parsers[name] = parser.parser
 	}
-	for _, input := range parsedConfig.Inputs {
+	for i, input := range parsedConfig.Inputs {
+		if input.input == nil {
+			return nil, fmt.Errorf("inputs[%v] is empty.", i)
+		}
 		name := input.input.GetName()
 		if _, exists := config.Inputs[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for input.", name)
 		}
 		config.Inputs[name] = input.input
 	}
-	for _, index := range parsedConfig.Indexes {
+	for i, index := range parsedConfig.Indexes {
+		if index.index == nil {
+			return nil, fmt.Errorf("indexes[%v] is empty.", i)
+		}
 		name := index.index.GetName()
 		if _, exists := config.Indexes[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for index.", name)
 		}
 		config.Indexes[name] = index.index
 	}
-	for _, service := range parsedConfig.Services {
+	for i, service := range parsedConfig.Services {
+		if service.service == nil {
+			return nil, fmt.Errorf("services[%v] is empty.", i)
+		}
 		name := service.service.GetName()
 		if _, exists := config.Services[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for service.", name)
 		}
 		config.Services[name] = service.service
 	}
-	for _, output := range parsedConfig.Outputs {
+	for i, output := range parsedConfig.Outputs {
+		if output.output == nil {
+			return nil, fmt.Errorf("outputs[%v] is empty.", i)
+		}
 		name := output.output.GetName()
 		if _, exists := config.Outputs[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for output.", name)
diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 1990465..6da16f4 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -81,6 +81,10 @@ func (config *SqliteConfig) DoesHandleInput(input input.Config) bool {
 }
 
 func (config *SqlitePropertyConfig) Validate(log *logrus.Entry, logPrefix string) error {
+	if config == nil {
+		return errors.New("this item is empty")
+	}
+
 	if config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index bfa4e9b..9103da6 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -105,6 +105,10 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 }
 
 func (config *CsvColumnConfig) Validate(parsers map[string]parser.Config, log *logrus.Entry, logPrefix string) error {
+	if config == nil {
+		return errors.New("this item is empty")
+	}
+
 	if config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/input/record/sort_config.go b/pkg/input/record/sort_config.go
index 30ee23b..62a0d5a 100644
--- a/pkg/input/record/sort_config.go
+++ b/pkg/input/record/sort_config.go
@@ -1,6 +1,7 @@
 package record
 
 import (
+	"errors"
 	"github.com/sirupsen/logrus"
 )
 
@@ -18,6 +19,10 @@ func (config *SortConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("this item is empty")
+	}
+
 	config.Logger = log
 
 	// Property will be validated at runtime, because some fields
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index a449709..491c7f0 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -112,6 +112,10 @@ func (config *XmlPropertyConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("this item is empty")
+	}
+
 	if nameRequired && config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/output/parameter/config.go b/pkg/output/parameter/config.go
index bb842a0..3c8771d 100644
--- a/pkg/output/parameter/config.go
+++ b/pkg/output/parameter/config.go
@@ -22,6 +22,10 @@ func (config *ParameterConfig) Validate(
 	logPrefix string,
 	input input.Config,
 ) error {
+	if config == nil {
+		return errors.New("this item is empty")
+	}
+
 	if config.Property == "" {
 		return errors.New("property is empty")
 	}
diff --git a/pkg/output/relationship/config.go b/pkg/output/relationship/config.go
index b741f2c..679ef3b 100644
--- a/pkg/output/relationship/config.go
+++ b/pkg/output/relationship/config.go
@@ -1,6 +1,7 @@
 package relationship
 
 import (
+	"errors"
 	"fmt"
 	"github.com/rodb-io/rodb/pkg/index"
 	"github.com/rodb-io/rodb/pkg/input"
@@ -29,6 +30,10 @@ func (config *RelationshipConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("this item is empty")
+	}
+
 	if config.Limit == 0 && config.IsArray {
 		log.Debug(logPrefix + "limit is not set. All relationships will be returned.")
 	}
@@ -91,6 +96,10 @@ func (config *RelationshipMatchConfig) Validate(
 	logPrefix string,
 	input input.Config,
 ) error {
+	if config == nil {
+		return errors.New("this item is empty")
+	}
+
 	// The parentProperty and childProperty will be validated at runtime (must be validated against the input and not the index)
 
 	if config.ChildIndex == "" {
diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index c05dc19..3ab3107 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -139,6 +139,10 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 }
 
 func (config *HttpRouteConfig) Validate(outputs map[string]output.Config, log *logrus.Entry) error {
+	if config == nil {
+		return errors.New("this item is empty")
+	}
+
 	if config.Output == "" {
 		return fmt.Errorf("output is empty. This field is required")
 	}
-- 
2.43.0


From 8cb081dd1445c38ab8e9eed666c61710e8d18238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:27 +0000
Subject: [PATCH 33/34] fix: the data file was left open by each limited or
 failing search without an index

The iterator only closed it when its end was reached, so files were
accumulating until the next garbage collection.
---
 pkg/index/index.go        |  6 ++++
 pkg/index/noop.go         | 25 ++++++++++++----
 pkg/input/csv.go          |  1 +
 pkg/input/xml.go          |  1 +
 pkg/output/json_array.go  |  3 +-
 pkg/output/json_common.go | 63 ++++++++++++++++++++++++++++++++-------
 pkg/output/json_object.go |  3 +-
 7 files changed, 84 insertions(+), 18 deletions(-)

diff --git a/pkg/index/index.go b/pkg/index/index.go
index 91ff353..20828b7 100644
--- a/pkg/index/index.go
+++ b/pkg/index/index.go
@@ -18,6 +18,12 @@ type Index interface {
 	Close() error
 }
 
+// The iterators of some indexes hold resources until their end is reached. These indexes
+// also return a function which releases them, whether or not the end has been reached
+type ReleasableIndex interface {
+	GetReleasableRecordPositions(input input.Input, filters map[string]interface{}) (record.PositionIterator, func() error, error)
+}
+
 type Config interface {
 	Validate(inputs map[string]input.Config, log *logrus.Entry) error
 	GetName() string
diff --git a/pkg/index/noop.go b/pkg/index/noop.go
index 121b8da..cceda61 100644
--- a/pkg/index/noop.go
+++ b/pkg/index/noop.go
@@ -33,8 +33,16 @@ func (noop *Noop) GetRecordPositions(
 	input input.Input,
 	filters map[string]interface{},
 ) (record.PositionIterator, error) {
+	iterator, _, err := noop.GetReleasableRecordPositions(input, filters)
+	return iterator, err
+}
+
+func (noop *Noop) GetReleasableRecordPositions(
+	input input.Input,
+	filters map[string]interface{},
+) (record.PositionIterator, func() error, error) {
 	if err := checkPrimitiveFilters(filters); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	// Always checking the properties in the same order, because the ones
@@ -47,10 +55,18 @@ func (noop *Noop) GetRecordPositions(
 
 	inputIterator, end, err := input.IterateAll()
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	closed := false
+	release := func() error {
+		if closed {
+			return nil
+		}
+
+		closed = true
+		return end()
+	}
 
 	return func() (*record.Position, error) {
 		for {
@@ -96,13 +112,12 @@ func (noop *Noop) GetRecordPositions(
 			}
 		}
 
-		closed = true
-		if err := end(); err != nil {
+		if err := release(); err != nil {
 			return nil, fmt.Errorf("Error while closing input iterator: %w", err)
 		}
 
 		return nil, nil
-	}, nil
+	}, release, nil
 }
 
 func (noop *Noop) Close() error {
diff --git a/pkg/input/csv.go b/pkg/input/csv.go
index b51bb7e..40dbe07 100644
--- a/pkg/input/csv.go
+++ b/pkg/input/csv.go
@@ -185,6 +185,7 @@ func (csvInput *Csv) IterateAll() (record.Iterator, func() error, error) {
 	if csvInput.config.IgnoreFirstRow {
 		_, err = csvReader.Read()
 		if err != nil && err != io.EOF && !errors.Is(err, csv.ErrFieldCount) {
+			file.Close()
 			return nil, nil, err
 		}
 	}
diff --git a/pkg/input/xml.go b/pkg/input/xml.go
index 568f1fc..7569c35 100644
--- a/pkg/input/xml.go
+++ b/pkg/input/xml.go
@@ -261,6 +261,7 @@ func (xmlInput *Xml) IterateAll() (record.Iterator, func() error, error) {
 		xmlInput.config.RecordXPath,
 	)
 	if err != nil {
+		file.Close()
 		return nil, nil, err
 	}
 
diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index 08f6088..3e2c3c5 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -85,7 +85,7 @@ func (jsonArray *JsonArray) Handle(
 		return sendError(err)
 	}
 
-	positionsPerIndex, err := getFilteredRecordPositionsPerIndex(
+	positionsPerIndex, release, err := getReleasableRecordPositionsPerIndex(
 		jsonArray.defaultIndex,
 		jsonArray.indexes,
 		jsonArray.input,
@@ -94,6 +94,7 @@ func (jsonArray *JsonArray) Handle(
 	if err != nil {
 		return sendError(err)
 	}
+	defer release()
 
 	nextPosition := recordPackage.JoinPositionIterators(positionsPerIndex...)
 
diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index 5bffc64..80a0567 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -59,16 +59,54 @@ func getFilteredRecordPositionsPerIndex(
 	input inputPackage.Input,
 	filtersPerIndex map[string]map[string]interface{},
 ) ([]recordPackage.PositionIterator, error) {
+	iterators, _, err := getReleasableRecordPositionsPerIndex(defaultIndex, indexes, input, filtersPerIndex)
+	return iterators, err
+}
+
+// The returned function must be called once the iterators are not used
+// anymore, because their end is not necessarily reached
+func getReleasableRecordPositionsPerIndex(
+	defaultIndex indexPackage.Index,
+	indexes indexPackage.List,
+	input inputPackage.Input,
+	filtersPerIndex map[string]map[string]interface{},
+) ([]recordPackage.PositionIterator, func() error, error) {
+	releases := make([]func() error, 0)
+	releaseAll := func() error {
+		var lastErr error
+		for _, release := range releases {
+			if err := release(); err != nil {
+				lastErr = err
+			}
+		}
+
+		return lastErr
+	}
+
+	getRecordPositions := func(
+		index indexPackage.Index,
+		filters map[string]interface{},
+	) (recordPackage.PositionIterator, error) {
+		releasableIndex, isReleasable := index.(indexPackage.ReleasableIndex)
+		if !isReleasable {
+			return index.GetRecordPositions(input, filters)
+		}
+
+		iterator, release, err := releasableIndex.GetReleasableRecordPositions(input, filters)
+		if err == nil {
+			releases = append(releases, release)
+		}
+
+		return iterator, err
+	}
+
 	if len(filtersPerIndex) == 0 {
-		iterator, err := defaultIndex.GetRecordPositions(
-			input,
-			map[string]interface{}{},
-		)
+		iterator, err := getRecordPositions(defaultIndex, map[string]interface{}{})
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 
-		return []recordPackage.PositionIterator{iterator}, nil
+		return []recordPackage.PositionIterator{iterator}, releaseAll, nil
 	}
 
 	// Always using the indexes in the same order, because joining them can
@@ -84,18 +122,20 @@ func getFilteredRecordPositionsPerIndex(
 		filters := filtersPerIndex[indexName]
 		index, indexExists := indexes[indexName]
 		if !indexExists {
-			return nil, fmt.Errorf("Index '%v' not found in indexes list.", indexName)
+			releaseAll()
+			return nil, nil, fmt.Errorf("Index '%v' not found in indexes list.", indexName)
 		}
 
-		iteratorForThisIndex, err := index.GetRecordPositions(input, filters)
+		iteratorForThisIndex, err := getRecordPositions(index, filters)
 		if err != nil {
-			return nil, err
+			releaseAll()
+			return nil, nil, err
 		}
 
 		iterators = append(iterators, iteratorForThisIndex)
 	}
 
-	return iterators, nil
+	return iterators, releaseAll, nil
 }
 
 func loadRelationships(
@@ -128,7 +168,7 @@ func loadRelationships(
 			return nil, fmt.Errorf("There is no input named '%v'", relationshipConfig.Input)
 		}
 
-		relationshipRecordPositionsPerFilter, err := getFilteredRecordPositionsPerIndex(
+		relationshipRecordPositionsPerFilter, release, err := getReleasableRecordPositionsPerIndex(
 			defaultIndex,
 			indexes,
 			input,
@@ -137,6 +177,7 @@ func loadRelationships(
 		if err != nil {
 			return nil, err
 		}
+		defer release()
 
 		input, inputExists := inputs[relationshipConfig.Input]
 		if !inputExists {
diff --git a/pkg/output/json_object.go b/pkg/output/json_object.go
index 2b70f58..96d0f35 100644
--- a/pkg/output/json_object.go
+++ b/pkg/output/json_object.go
@@ -83,7 +83,7 @@ func (jsonObject *JsonObject) Handle(
 		return sendError(err)
 	}
 
-	positionsPerIndex, err := getFilteredRecordPositionsPerIndex(
+	positionsPerIndex, release, err := getReleasableRecordPositionsPerIndex(
 		jsonObject.defaultIndex,
 		jsonObject.indexes,
 		jsonObject.input,
@@ -92,6 +92,7 @@ func (jsonObject *JsonObject) Handle(
 	if err != nil {
 		return sendError(err)
 	}
+	defer release()
 
 	nextPosition := recordPackage.JoinPositionIterators(positionsPerIndex...)
 
-- 
2.43.0


From 0d940eaa63f644851be6e8503acf5eaf30ee8a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:55 +0000
Subject: [PATCH 34/34] fix: the changes of the inputs were missed when file
 system events had been lost

---
 pkg/util/fsnotify.go | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/pkg/util/fsnotify.go b/pkg/util/fsnotify.go
index 5b60bf0..41dc6b7 100644
--- a/pkg/util/fsnotify.go
+++ b/pkg/util/fsnotify.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/fsnotify/fsnotify"
 	"github.com/sirupsen/logrus"
+	"os"
 	"path/filepath"
 )
 
@@ -37,6 +38,21 @@ func StartFilesystemWatchProcess(
 		changes |= fsnotify.Create | fsnotify.Remove | fsnotify.Rename
 	}
 
+	initialStates := make([]os.FileInfo, len(paths))
+	for i, path := range paths {
+		// The state is nil if the file cannot be accessed
+		initialStates[i], _ = os.Stat(path)
+	}
+
+	handleChange := func(name string) {
+		message := fmt.Sprintf("The file '%v' has been modified by another process", name)
+		if dieOnChange {
+			logger.Fatalln(message + ". Quitting because it may have corrupted data and 'dieOnInputChange' is 'true'.")
+		} else {
+			logger.Warnln(message + ", but 'dieOnInputChange' is 'false'. This could have unpredictable consequences.")
+		}
+	}
+
 	go func() {
 		for {
 			select {
@@ -45,19 +61,34 @@ func StartFilesystemWatchProcess(
 					return
 				}
 				if event.Op&changes != 0 && isWatched(event.Name) {
-					message := fmt.Sprintf("The file '%v' has been modified by another process", event.Name)
-					if dieOnChange {
-						logger.Fatalln(message + ". Quitting because it may have corrupted data and 'dieOnInputChange' is 'true'.")
-					} else {
-						logger.Warnln(message + ", but 'dieOnInputChange' is 'false'. This could have unpredictable consequences.")
-					}
+					handleChange(event.Name)
 				}
 			case err, ok := <-watcher.Errors:
 				if !ok {
 					return
 				}
 				logger.Errorf("Error while watching file: %v", err)
+
+				// Some events have been lost, so the changes must be searched for
+				if err == fsnotify.ErrEventOverflow {
+					for i, path := range paths {
+						if hasFileChanged(initialStates[i], path) {
+							handleChange(path)
+						}
+					}
+				}
 			}
 		}
 	}()
 }
+
+func hasFileChanged(initialState os.FileInfo, path string) bool {
+	state, err := os.Stat(path)
+	if err != nil || initialState == nil {
+		return err == nil || initialState != nil
+	}
+
+	return !os.SameFile(initialState, state) ||
+		state.Size() != initialState.Size() ||
+		!state.ModTime().Equal(initialState.ModTime())
+}
-- 
2.43.0


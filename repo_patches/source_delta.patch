From d37f3eeb6726c1ca7866cee2760c794b6dacec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:21 +0000
Subject: [PATCH 01/42] fix: membership in an empty set must not panic or
 render invalid SQL

In and NotIn of an empty slice made SqlStmt.Vars slice an empty string (panic)
in the static placeholder dialects and wrote "IN ()" in postgres. Write a
constant condition instead: nothing is in an empty set.
---
 cmd/sqlgen/codegen/templates/operator.go.tpl | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/operator.go.tpl b/cmd/sqlgen/codegen/templates/operator.go.tpl
index de50d7b..8fd6a3e 100644
--- a/cmd/sqlgen/codegen/templates/operator.go.tpl
+++ b/cmd/sqlgen/codegen/templates/operator.go.tpl
@@ -71,6 +71,11 @@ func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 				args[idx] = values[idx]
 			}
 		}
+		if len(args) == 0 {
+			// Nothing is a member of an empty set
+			w.WriteString("1 = 0")
+			return
+		}
 		w.WriteString(column.ColumnName() + " IN " + w.Vars(args))
 	}
 }
@@ -92,6 +97,11 @@ func NotIn[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause
 				args[idx] = values[idx]
 			}
 		}
+		if len(args) == 0 {
+			// Everything is a non-member of an empty set
+			w.WriteString("1 = 1")
+			return
+		}
 		w.WriteString(column.ColumnName() + " NOT IN " + w.Vars(args))
 	}
 }
-- 
2.43.0


From e2fdb1fe0153987469977fec82c48baf94b4a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:21 +0000
Subject: [PATCH 02/42] fix: report an error that ends a result set early

QueryStmt, Insert, Upsert and the pager stopped at the first false rows.Next()
and returned what they had so far as a complete result, although a broken row
stream ends the loop the same way. Check rows.Err().
---
 cmd/sqlgen/codegen/templates/db.go.tpl | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 9d68c69..b8f9d04 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -113,6 +113,9 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 			}
 			i++
 		}
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		return sequel.NewRowsAffectedResult(i), rows.Close()
 	default:
 		noOfCols := len(columns)
@@ -137,6 +140,9 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 			}
 			i++
 		}
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		return sequel.NewRowsAffectedResult(i), rows.Close()
 	}
 }
@@ -442,6 +448,9 @@ func Upsert[T interface {
 		}
 		i++
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return sequel.NewRowsAffectedResult(i), rows.Close()
 }
 {{ else }}
@@ -954,7 +963,12 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				}
 				data = append(data, v)
 			}
+			err = rows.Err()
 			rows.Close()
+			if err != nil {
+				yield(nil, err)
+				return
+			}
 
 			noOfRecord := len(data)
 			if uint16(noOfRecord) <= maxLimit {
@@ -1117,7 +1131,12 @@ func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				}
 				data = append(data, v)
 			}
+			err = rows.Err()
 			rows.Close()
+			if err != nil {
+				yield(nil, err)
+				return
+			}
 
 			noOfRecord := len(data)
 			if uint16(noOfRecord) <= maxLimit {
@@ -1220,6 +1239,9 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 		}
 		result = append(result, v)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	if err := rows.Close(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c7987cc0caee33c99b5955f1d38c6fb8c956f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:10 +0000
Subject: [PATCH 03/42] fix: insert exactly the columns which have a value

Values() of a generated model leaves out the auto increment key and read-only
columns, while Insert, Upsert and UpsertOne listed Columns(): the statement had
more columns than values or lost the wrong value. Use InsertColumns() where
the model has it, and drop the auto increment key only from models that list
it.
---
 cmd/sqlgen/codegen/templates/db.go.tpl | 74 ++++++++++++++++++--------
 1 file changed, 52 insertions(+), 22 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index b8f9d04..c3867bb 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -21,7 +21,7 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 		query, args := v.InsertOneStmt()
 		return db.QueryRowContext(ctx, query, args...).Scan(model.Addrs()...)
 	default:
-		columns, args := model.Columns(), model.Values()
+		columns, args := insertColumns(model), model.Values()
 		stmt := strpool.AcquireString()
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ({{ quoteVar 1 }}")
 		noOfArgs := len(args)
@@ -61,7 +61,7 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 		query, args := v.InsertOneStmt()
 		return db.ExecContext(ctx, query, args...)
 	default:
-		columns, args := model.Columns(), model.Values()
+		columns, args := insertColumns(model), model.Values()
 		query := "INSERT INTO "+DbTable(model)+" ("+strings.Join(columns, ",")+") VALUES ("+strings.Repeat("{{ quoteVar 1 }},", len(columns) - 1)+"{{ quoteVar 1 }});"
 		return db.ExecContext(ctx, query, args...)
 	}
@@ -78,13 +78,16 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 	}
 
 	model := data[0]
-	columns := model.Columns()
+	columns := insertColumns(model)
 	stmt := strpool.AcquireString()
 
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
 		_, idx, _ := v.PK()
-		columns = append(columns[:idx], columns[idx+1:]...)
+		stripKey := len(columns) == len(model.Columns())
+		if stripKey {
+			columns = append(columns[:idx], columns[idx+1:]...)
+		}
 		noOfCols := len(columns)
 		cols := strings.Join(columns, ",")
 		args := make([]any, 0, noOfCols*noOfData)
@@ -96,7 +99,9 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
 			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
+			if stripKey {
+				values = append(values[:idx], values[idx+1:]...)
+			}
 			args = append(args, values...)
 		}
 		stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
@@ -155,13 +160,16 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 	}
 
 	model := data[0]
-	columns := model.Columns()
+	columns := insertColumns(model)
 	stmt := strpool.AcquireString()
 
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
 		_, idx, _ := v.PK()
-		columns = append(columns[:idx], columns[idx+1:]...)
+		stripKey := len(columns) == len(model.Columns())
+		if stripKey {
+			columns = append(columns[:idx], columns[idx+1:]...)
+		}
 		noOfCols := len(columns)
 		cols := strings.Join(columns, ",")
 		args := make([]any, 0, noOfCols*noOfData)
@@ -174,7 +182,9 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 				stmt.WriteString(placeholder)
 			}
 			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
+			if stripKey {
+				values = append(values[:idx], values[idx+1:]...)
+			}
 			args = append(args, values...)
 		}
 		stmt.WriteByte(';')
@@ -244,7 +254,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 
 	var (
 		stmt     = strpool.AcquireString()
-		columns  = model.Columns()
+		columns  = insertColumns(model)
 		noOfCols = len(columns)
 		values   = model.Values()
 	)
@@ -254,8 +264,10 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 	case sequel.AutoIncrKeyer:
 		pkName, idx, _ := v.PK()
 		opt.omitFields = append(opt.omitFields, pkName)
-		columns = append(columns[:idx], columns[idx+1:]...)
-		values = append(values[:idx], values[idx+1:]...)
+		if len(columns) == len(model.Columns()) {
+			columns = append(columns[:idx], columns[idx+1:]...)
+			values = append(values[:idx], values[idx+1:]...)
+		}
 		// Don't include auto increment primary key on INSERT
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 	case sequel.PrimaryKeyer:
@@ -330,7 +342,7 @@ func Upsert[T interface {
 
 	var (
 		model    = data[0]
-		columns  = model.Columns()
+		columns  = insertColumns(model)
 		noOfCols = len(columns)
 		args     = make([]any, 0, noOfCols*noOfData)
 		opt      upsertOpts
@@ -345,7 +357,10 @@ func Upsert[T interface {
 	case sequel.AutoIncrKeyer:
 		pkName, idx, _ := v.PK()
 		opt.omitFields = append(opt.omitFields, pkName)
-		columns = append(columns[:idx], columns[idx+1:]...)
+		stripKey := len(columns) == len(model.Columns())
+		if stripKey {
+			columns = append(columns[:idx], columns[idx+1:]...)
+		}
 		// Don't include auto increment primary key on INSERT
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		
@@ -356,7 +371,9 @@ func Upsert[T interface {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
 			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
+			if stripKey {
+				values = append(values[:idx], values[idx+1:]...)
+			}
 			args = append(args, values...)
 		}
 	case sequel.PrimaryKeyer:
@@ -416,12 +433,11 @@ func Upsert[T interface {
 		if omitter, ok := any(model).(setOnUpsertOmitter); ok {
 			opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
 		}
-		columns = model.Columns()
 		for i := range opt.omitFields {
 			omitDict[opt.omitFields[i]] = struct{}{}
 		}
 		first := true
-		for i := 0; i < noOfCols; i++ {
+		for i := range columns {
 			if _, ok := omitDict[columns[i]]; ok {
 				continue
 			}
@@ -460,7 +476,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 	switch v := any(model).(type) {
 	case sequel.PrimaryKeyer:
 		pkName, idx, _ := v.PK()
-		columns := model.Columns()
+		columns := insertColumns(model)
 		if !override {
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
@@ -508,7 +524,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 		return db.ExecContext(ctx, stmt.String(), model.Values()...)
 	case sequel.CompositeKeyer:
 		names, idxs, _ := v.CompositeKey()
-		columns := model.Columns()
+		columns := insertColumns(model)
 		if !override {
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
@@ -552,7 +568,7 @@ func Upsert[T interface {
 
 	var (
 		model    = data[0]
-		columns  = model.Columns()
+		columns  = insertColumns(model)
 		noOfCols = len(columns)
 		args     = make([]any, 0, noOfCols*noOfData)
 	)
@@ -564,13 +580,16 @@ func Upsert[T interface {
 		pkName, idx, _ := v.PK()
 		omittedFields = append(omittedFields, pkName)
 		// Don't include auto increment primary key on INSERT
-		columns = append(columns[:idx], columns[idx+1:]...)
+		stripKey := len(columns) == len(model.Columns())
+		if stripKey {
+			columns = append(columns[:idx], columns[idx+1:]...)
+		}
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
-		placeholder := ",(" + strings.Repeat(",?", noOfCols)[1:] + ")"
+		placeholder := ",(" + strings.Repeat(",?", len(columns))[1:] + ")"
 		for i := 0; i < noOfData; i++ {
 			if i > 0 {
 				stmt.WriteString(placeholder)
@@ -578,7 +597,9 @@ func Upsert[T interface {
 				stmt.WriteString(placeholder[1:])
 			}
 			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
+			if stripKey {
+				values = append(values[:idx], values[idx+1:]...)
+			}
 			args = append(args, values...)
 		}
 	case sequel.PrimaryKeyer:
@@ -1559,6 +1580,15 @@ func DbTable[T sequel.Tabler](model T) string {
 	return model.TableName()
 }
 
+// insertColumns returns the columns which are writable on INSERT, they are in
+// the same order as the values.
+func insertColumns(model sequel.Columner) []string {
+	if v, ok := model.(sequel.InsertColumner); ok {
+		return v.InsertColumns()
+	}
+	return append([]string(nil), model.Columns()...)
+}
+
 func TableColumns[T sequel.Columner](model T) []string {
 	if v, ok := any(model).(sequel.SQLColumner); ok {
 		return v.SQLColumns()
-- 
2.43.0


From f02874e4f6567d9a352f4ae821098db9cc3f8c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:56 +0000
Subject: [PATCH 04/42] fix: build a valid SET clause for every upsert

UpsertOne with a composite key indexed the omitted fields by the position of
the keys (panic) and left a trailing comma; Upsert cut the key columns by their
position in the table whatever their order; omitting every column wrote an
empty SET; and the caller's slice of omitted fields was appended to in place.
---
 cmd/sqlgen/codegen/templates/db.go.tpl | 69 ++++++++++++++++++++------
 1 file changed, 54 insertions(+), 15 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index c3867bb..2ef903d 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -233,7 +233,8 @@ func WithDoNothing(doNothing bool) UpsertOption {
 
 func WithOmitFields(fields ...string) UpsertOption {
 	return func(opt *upsertOpts) {
-		opt.omitFields = fields
+		// The fields belong to the caller, never append in place
+		opt.omitFields = append([]string(nil), fields...)
 	}
 }
 
@@ -282,19 +283,23 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 		panic("unreachable")
 	}
 	stmt.WriteString(model.InsertPlaceholders(0))
+	conflictKeys := opt.duplicateKeys
 	if len(opt.duplicateKeys) > 0 {
 		stmt.WriteString(" ON CONFLICT(" + strings.Join(opt.duplicateKeys, ",") + ")")
 	} else {
 		switch vi := any(model).(type) {
 		case duplicateKeyer:
 			keys := vi.DuplicateKeys()
+			conflictKeys = keys
 			opt.omitFields = append(opt.omitFields, keys...)
 			stmt.WriteString(" ON CONFLICT(" + strings.Join(keys, ",") + ")")
 		case sequel.PrimaryKeyer:
 			pkName, _, _ := vi.PK()
+			conflictKeys = []string{pkName}
 			stmt.WriteString(" ON CONFLICT(" + pkName + ")")
 		case sequel.CompositeKeyer:
 			names, _, _ := vi.CompositeKey()
+			conflictKeys = names
 			stmt.WriteString(" ON CONFLICT(" + strings.Join(names, ",") + ")")
 		default:
 			panic("unreachable")
@@ -324,6 +329,10 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 			}
 			first = false
 		}
+		if first {
+			// Every column is omitted, keep the existing row as it is
+			stmt.WriteString(conflictKeys[0] + " = EXCLUDED." + conflictKeys[0])
+		}
 		clear(omitDict)
 	}
 	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
@@ -403,19 +412,23 @@ func Upsert[T interface {
 	default:
 		panic("unreachable")
 	}
+	conflictKeys := opt.duplicateKeys
 	if len(opt.duplicateKeys) > 0 {
 		stmt.WriteString(" ON CONFLICT(" + strings.Join(opt.duplicateKeys, ",") + ")")
 	} else {
 		switch vi := any(model).(type) {
 		case duplicateKeyer:
 			keys := vi.DuplicateKeys()
+			conflictKeys = keys
 			opt.omitFields = append(opt.omitFields, keys...)
 			stmt.WriteString(" ON CONFLICT(" + strings.Join(keys, ",") + ")")
 		case sequel.PrimaryKeyer:
 			pkName, _, _ := vi.PK()
+			conflictKeys = []string{pkName}
 			stmt.WriteString(" ON CONFLICT(" + pkName + ")")
 		case sequel.CompositeKeyer:
 			names, _, _ := vi.CompositeKey()
+			conflictKeys = names
 			// // Exclude primary key, don't update it
 			// for i := len(idxs) - 1; i >= 0; i-- {
 			// 	columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
@@ -448,6 +461,10 @@ func Upsert[T interface {
 			}
 			first = false
 		}
+		if first {
+			// Every column is omitted, keep the existing row as it is
+			stmt.WriteString(conflictKeys[0] + " = EXCLUDED." + conflictKeys[0])
+		}
 		clear(omitDict)
 	}
 	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
@@ -498,6 +515,10 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 				}
 				first = false
 			}
+			if first {
+				// Every column is omitted, keep the existing row as it is
+				stmt.WriteString(pkName + " = " + pkName)
+			}
 			clear(omitDict)
 		}
 		if _, ok := any(model).(sequel.AutoIncrKeyer); ok {
@@ -523,30 +544,36 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 		}
 		return db.ExecContext(ctx, stmt.String(), model.Values()...)
 	case sequel.CompositeKeyer:
-		names, idxs, _ := v.CompositeKey()
+		names, _, _ := v.CompositeKey()
 		columns := insertColumns(model)
 		if !override {
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
 			dict := make(map[string]struct{})
-			for i := range append(names, omittedFields...) {
+			// Exclude composite key, don't update it
+			for i := range names {
+				dict[names[i]] = struct{}{}
+			}
+			for i := range omittedFields {
 				dict[omittedFields[i]] = struct{}{}
 			}
 			noOfCols := len(columns)
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
-			// Exclude composite key, don't update it
-			for i := len(idxs) - 1; i >= 0; i-- {
-				columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
-			}
+			first := true
 			for i := range columns {
 				if _, ok := dict[columns[i]]; ok {
 					continue
 				}
-				if i < noOfCols-1 {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + "),")
-				} else {
+				if first {
 					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
+				} else {
+					stmt.WriteString(","+ columns[i] + " =VALUES(" + columns[i] + ")")
 				}
+				first = false
+			}
+			if first {
+				// Every column is omitted, keep the existing row as it is
+				stmt.WriteString(names[0] + " = " + names[0])
 			}
 			clear(dict)
 		}
@@ -573,6 +600,9 @@ func Upsert[T interface {
 		args     = make([]any, 0, noOfCols*noOfData)
 	)
 
+	// The fields belong to the caller, never append in place
+	omittedFields = append([]string(nil), omittedFields...)
+
 	var stmt = strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
 	switch v := any(model).(type) {
@@ -632,11 +662,9 @@ func Upsert[T interface {
 			}
 			args = append(args, data[i].Values()...)
 		}
-		_, idxs, _ := v.CompositeKey()
 		// Exclude primary key, don't update it
-		for i := len(idxs) - 1; i >= 0; i-- {
-			columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
-		}
+		keyNames, _, _ := v.CompositeKey()
+		omittedFields = append(omittedFields, keyNames...)
 	}
 	if override {
 		stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
@@ -645,7 +673,6 @@ func Upsert[T interface {
 		for i := range omittedFields {
 			omitDict[omittedFields[i]] = struct{}{}
 		}
-		noOfCols = len(columns)
 		first := true
 		for i := range columns {
 			if _, ok := omitDict[columns[i]]; ok {
@@ -658,6 +685,18 @@ func Upsert[T interface {
 			}
 			first = false
 		}
+		if first {
+			// Every column is omitted, keep the existing row as it is
+			var keyName string
+			switch v := any(model).(type) {
+			case sequel.PrimaryKeyer:
+				keyName, _, _ = v.PK()
+			case sequel.CompositeKeyer:
+				keyNames, _, _ := v.CompositeKey()
+				keyName = keyNames[0]
+			}
+			stmt.WriteString(keyName + " = " + keyName)
+		}
 		clear(omitDict)
 	}
 	stmt.WriteByte(';')
-- 
2.43.0


From cad72b416c57b978c41816b77c1cdd814ef52e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:56 +0000
Subject: [PATCH 05/42] fix: write upserts and row locks in the SQLite dialect

The sqlite helpers sent MySQL's INSERT IGNORE, ON DUPLICATE KEY UPDATE and
FOR UPDATE, which SQLite rejects as syntax errors.
---
 cmd/sqlgen/codegen/templates/db.go.tpl | 66 ++++++++++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 2ef903d..a5fffe5 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -495,24 +495,40 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 		pkName, idx, _ := v.PK()
 		columns := insertColumns(model)
 		if !override {
+			{{ if eq driver "sqlite" -}}
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ") ON CONFLICT DO NOTHING")
+			{{ else -}}
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
+			{{ end -}}
 		} else {
 			omitDict := map[string]struct{}{pkName: {}}
 			for i := range omittedFields {
 				omitDict[omittedFields[i]] = struct{}{}
 			}
 			noOfCols := len(columns)
+			{{ if eq driver "sqlite" -}}
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON CONFLICT DO UPDATE SET ")
+			{{ else -}}
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
+			{{ end -}}
 			first := true
 			for i := range columns {
 				if _, ok := omitDict[columns[i]]; ok {
 					continue
 				}
+				{{ if eq driver "sqlite" -}}
+				if first {
+					stmt.WriteString(columns[i] + " = excluded." + columns[i])
+				} else {
+					stmt.WriteString(","+ columns[i] + " = excluded." + columns[i])
+				}
+				{{ else -}}
 				if first {
 					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
 				} else {
 					stmt.WriteString(","+ columns[i] + " =VALUES(" + columns[i] + ")")
 				}
+				{{ end -}}
 				first = false
 			}
 			if first {
@@ -547,7 +563,11 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 		names, _, _ := v.CompositeKey()
 		columns := insertColumns(model)
 		if !override {
+			{{ if eq driver "sqlite" -}}
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ") ON CONFLICT DO NOTHING")
+			{{ else -}}
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
+			{{ end -}}
 		} else {
 			dict := make(map[string]struct{})
 			// Exclude composite key, don't update it
@@ -558,17 +578,29 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 				dict[omittedFields[i]] = struct{}{}
 			}
 			noOfCols := len(columns)
+			{{ if eq driver "sqlite" -}}
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON CONFLICT DO UPDATE SET ")
+			{{ else -}}
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
+			{{ end -}}
 			first := true
 			for i := range columns {
 				if _, ok := dict[columns[i]]; ok {
 					continue
 				}
+				{{ if eq driver "sqlite" -}}
+				if first {
+					stmt.WriteString(columns[i] + " = excluded." + columns[i])
+				} else {
+					stmt.WriteString(","+ columns[i] + " = excluded." + columns[i])
+				}
+				{{ else -}}
 				if first {
 					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
 				} else {
 					stmt.WriteString(","+ columns[i] + " =VALUES(" + columns[i] + ")")
 				}
+				{{ end -}}
 				first = false
 			}
 			if first {
@@ -617,7 +649,11 @@ func Upsert[T interface {
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
+			{{ if eq driver "sqlite" -}}
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			{{ else -}}
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			{{ end -}}
 		}
 		placeholder := ",(" + strings.Repeat(",?", len(columns))[1:] + ")"
 		for i := 0; i < noOfData; i++ {
@@ -638,7 +674,11 @@ func Upsert[T interface {
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
+			{{ if eq driver "sqlite" -}}
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			{{ else -}}
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			{{ end -}}
 		}
 		for i := 0; i < noOfData; i++ {
 			if i > 0 {
@@ -652,7 +692,11 @@ func Upsert[T interface {
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
+			{{ if eq driver "sqlite" -}}
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			{{ else -}}
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			{{ end -}}
 		}
 		for i := 0; i < noOfData; i++ {
 			if i > 0 {
@@ -667,7 +711,11 @@ func Upsert[T interface {
 		omittedFields = append(omittedFields, keyNames...)
 	}
 	if override {
+		{{ if eq driver "sqlite" -}}
+		stmt.WriteString(" ON CONFLICT DO UPDATE SET ")
+		{{ else -}}
 		stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
+		{{ end -}}
 		// Don't update primary key when we do upsert
 		omitDict := map[string]struct{}{}
 		for i := range omittedFields {
@@ -678,11 +726,19 @@ func Upsert[T interface {
 			if _, ok := omitDict[columns[i]]; ok {
 				continue
 			}
+			{{ if eq driver "sqlite" -}}
+			if first {
+				stmt.WriteString(columns[i] + " = excluded." + columns[i])
+			} else {
+				stmt.WriteString(","+ columns[i] + " = excluded." + columns[i])
+			}
+			{{ else -}}
 			if first {
 				stmt.WriteString(columns[i] + "=VALUES(" + columns[i] + ")")
 			} else {
 				stmt.WriteString(","+ columns[i] + "=VALUES(" + columns[i] + ")")
 			}
+			{{ end -}}
 			first = false
 		}
 		if first {
@@ -699,6 +755,10 @@ func Upsert[T interface {
 		}
 		clear(omitDict)
 	}
+	{{- if eq driver "sqlite" }} else {
+		stmt.WriteString(" ON CONFLICT DO NOTHING")
+	}
+	{{- end }}
 	stmt.WriteByte(';')
 	return db.ExecContext(ctx, stmt.String(), args...)
 }
@@ -838,6 +898,12 @@ const (
 	LockForShare       lockMode = "FOR SHARE"
 	LockForKeyShare    lockMode = "FOR KEY SHARE"
 )
+{{ else if eq driver "sqlite" -}}
+// SQLite has no row level lock, a transaction locks the whole database.
+const (
+	LockForUpdate 	   lockMode = ""
+	LockForShare       lockMode = ""
+)
 {{ else }}
 const (
 	LockForUpdate 	   lockMode = "FOR UPDATE"
-- 
2.43.0


From ace135f4d06efe7d9a70f4b96011560759a19efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:17 +0000
Subject: [PATCH 06/42] fix: an upsert that keeps the existing row must not
 change the record's key

UpsertOne stored LastInsertId in the record even when no row was inserted: 0 in
MySQL's ignore mode, and a stale id of another insert in SQLite, which does not
report one for a conflicting row. SQLite is asked with RETURNING instead.
---
 cmd/sqlgen/codegen/templates/db.go.tpl | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index a5fffe5..1f7ebf9 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -538,6 +538,19 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 			clear(omitDict)
 		}
 		if _, ok := any(model).(sequel.AutoIncrKeyer); ok {
+			{{ if eq driver "sqlite" -}}
+			// The last insert id is the one of an earlier insert when the row
+			// exists already, ask for the key of the affected row instead
+			stmt.WriteString(" RETURNING " + pkName + ";")
+			err := db.QueryRowContext(ctx, stmt.String(), model.Values()...).Scan(model.Addrs()[idx])
+			if err == sql.ErrNoRows && !override {
+				return sequel.NewRowsAffectedResult(0), nil
+			}
+			if err != nil {
+				return nil, err
+			}
+			return sequel.NewRowsAffectedResult(1), nil
+			{{ else -}}
 			result, err := db.ExecContext(ctx, stmt.String(), model.Values()...)
 			if err != nil {
 				return nil, err
@@ -546,6 +559,10 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 			if err != nil {
 				return nil, err
 			}
+			if i64 == 0 {
+				// No key is generated when the row is ignored
+				return result, nil
+			}
 			switch v := model.Addrs()[idx].(type) {
 			case *int64:
 				*v = i64
@@ -557,6 +574,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 				return nil, fmt.Errorf(`sqlgen: invalid auto increment data type %T`, v)
 			}
 			return result, nil
+			{{ end -}}
 		}
 		return db.ExecContext(ctx, stmt.String(), model.Values()...)
 	case sequel.CompositeKeyer:
-- 
2.43.0


From 7303b612d8343b62c994b70abfda3258f95cbc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:19 +0000
Subject: [PATCH 07/42] fix: return each upserted row to the record it belongs
 to

With DO NOTHING postgres returns only the rows it inserted, and Upsert stored
the n-th returned row in the n-th record. Find the record by the values of the
conflict target.
---
 cmd/sqlgen/codegen/templates/db.go.tpl | 57 +++++++++++++++++++++++++-
 1 file changed, 56 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 1f7ebf9..a808b33 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -474,8 +474,30 @@ func Upsert[T interface {
 		return nil, err
 	}
 	defer rows.Close()
-	var i int64
+	var i, pos int64
 	for rows.Next() {
+		if opt.doNothing {
+			// The existing rows are not returned, so the row may belong to any
+			// of the remaining records
+			var v T
+			if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
+				return nil, err
+			}
+			i++
+			keys := keyValues(v, columns, conflictKeys)
+			next := pos
+			for len(keys) > 0 && next < int64(noOfData) && !equalValues(keyValues(data[next], columns, conflictKeys), keys) {
+				next++
+			}
+			if next >= int64(noOfData) {
+				continue
+			}
+			if err := rows.Scan(Ptr(&data[next]).Addrs()...); err != nil {
+				return nil, err
+			}
+			pos = next + 1
+			continue
+		}
 		if err := rows.Scan(Ptr(&data[i]).Addrs()...); err != nil {
 			return nil, err
 		}
@@ -486,6 +508,39 @@ func Upsert[T interface {
 	}
 	return sequel.NewRowsAffectedResult(i), rows.Close()
 }
+
+// keyValues returns the values of the given keys, the columns are the insertable
+// columns of the model.
+func keyValues(model sequel.Valuer, columns, keys []string) []any {
+	values := model.Values()
+	result := make([]any, 0, len(keys))
+	for _, key := range keys {
+		for i := range columns {
+			if columns[i] == key && i < len(values) {
+				result = append(result, values[i])
+				break
+			}
+		}
+	}
+	return result
+}
+
+func equalValues(a, b []any) bool {
+	if len(a) != len(b) {
+		return false
+	}
+	for i := range a {
+		if ta, ok := a[i].(time.Time); ok {
+			// The database keeps microseconds
+			if tb, ok := b[i].(time.Time); !ok || !ta.Round(time.Microsecond).Equal(tb.Round(time.Microsecond)) {
+				return false
+			}
+		} else if !reflect.DeepEqual(a[i], b[i]) {
+			return false
+		}
+	}
+	return true
+}
 {{ else }}
 func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Context, db *sql.DB, model Ptr, override bool, omittedFields ...string) (sql.Result, error) {
 	stmt := strpool.AcquireString()
-- 
2.43.0


From 6f863f0bd3de581ebe16cf9a12a144df350d0798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:19 +0000
Subject: [PATCH 08/42] fix: update by primary key binds every column and key
 once

The helper for models without UpdateOneByPKStmt passed a single key twice, left
out the column values of a composite key, and numbered or wrote the postgres
key placeholders wrongly.
---
 cmd/sqlgen/codegen/templates/db.go.tpl | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index a808b33..36fb643 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -875,10 +875,10 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		return db.ExecContext(ctx, query, args...)
 	case sequel.PrimaryKeyer:
 		pkName, pkIdx, pk := v.PK()
-		columns := model.Columns()
+		columns := append([]string(nil), model.Columns()...)
 		columns = append(columns[:pkIdx], columns[pkIdx+1:]...)
 		values := model.Values()
-		values = append(values[:pkIdx], append(values[pkIdx+1:], pk)...)
+		values = append(values[:pkIdx], values[pkIdx+1:]...)
 		{{ if isStaticVar -}}
 		return db.ExecContext(ctx, "UPDATE "+DbTable(model)+" SET "+strings.Join(columns, " = {{ quoteVar 1 }},")+" = {{ quoteVar 1 }} WHERE "+pkName+" = {{ quoteVar 1 }};", append(values, pk)...)
 		{{ else -}}
@@ -889,13 +889,14 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		for i := 1; i < noOfColumn; i++ {
 			stmt.WriteString(","+ columns[i] +" = "+ wrapVar(i + 1))
 		}
-		stmt.WriteString(" WHERE "+ pkName +" = "+ wrapVar(noOfColumn + 2)+ ";")
+		stmt.WriteString(" WHERE "+ pkName +" = "+ wrapVar(noOfColumn + 1)+ ";")
 		return db.ExecContext(ctx, stmt.String(), append(values, pk)...)
 		{{ end -}}
 	case sequel.CompositeKeyer:
-		columns := model.Columns()
+		columns := append([]string(nil), model.Columns()...)
 		keyNames, keyIdxs, keys := v.CompositeKey()
 		values := model.Values()
+		keyIdxs = append([]int(nil), keyIdxs...)
 		sort.Ints(keyIdxs)
 		for i := len(keyIdxs) - 1; i >= 0; i-- {
 			columns = append(columns[:keyIdxs[i]], columns[keyIdxs[i]+1:]...)
@@ -905,6 +906,7 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		args := make([]any, 0, noOfColumn+len(keys))
 		{{ if isStaticVar -}}
 		query := "UPDATE " + DbTable(model) + " SET " +strings.Join(columns, " = {{ quoteVar 1 }},")+" = {{ quoteVar 1 }} WHERE (" + strings.Join(keyNames, ",") + ") = ({{ quoteVar 1 }}" + strings.Repeat(",{{ quoteVar 1 }}", len(keyNames)-1)+");"
+		args = append(args, values...)
 		return db.ExecContext(ctx, query, append(args, keys...)...)
 		{{ else -}}
 		stmt := strpool.AcquireString()
@@ -916,7 +918,7 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		stmt.WriteString(" WHERE (" + strings.Join(keyNames, ",") + ") = (" + wrapVar(noOfColumn+1))
 		noOfKey := len(keyNames)
 		for i := 1; i < noOfKey; i++ {
-			stmt.WriteString("," + columns[i] + " = " + wrapVar(noOfColumn+i+1))
+			stmt.WriteString("," + wrapVar(noOfColumn+i+1))
 		}
 		stmt.WriteString(");")
 		args = append(args, values...)
-- 
2.43.0


From 2af2bffe83f4fe2196c220820da53d1184f577e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:19 +0000
Subject: [PATCH 09/42] fix: give the statement back when QueryOneStmt has no
 table

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 36fb643..df3e7ef 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1479,6 +1479,7 @@ func QueryOneStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.
 		case sequel.Tabler:
 			blr.WriteString(" FROM " + DbTable(vj))
 		default:
+			ReleaseStmt(blr)
 			return nil, fmt.Errorf("missing table name for model %T", v)
 		}
 	}
-- 
2.43.0


From 8a3d9c0145ed7c72eed78490fb7a1bc37b5be9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:19 +0000
Subject: [PATCH 10/42] fix: a query with an offset but no limit

MySQL and SQLite accept OFFSET only behind LIMIT.
---
 cmd/sqlgen/codegen/templates/db.go.tpl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index df3e7ef..2bd1931 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1421,6 +1421,15 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 	if stmt.Limit > 0 {
 		blr.WriteString(" LIMIT " + strconv.Itoa((int)(stmt.Limit)))
 	}
+	{{- if eq driver "sqlite" }} else if stmt.Offset > 0 {
+		// OFFSET is only valid with LIMIT
+		blr.WriteString(" LIMIT -1")
+	}
+	{{- else if ne driver "postgres" }} else if stmt.Offset > 0 {
+		// OFFSET is only valid with LIMIT
+		blr.WriteString(" LIMIT 18446744073709551615")
+	}
+	{{- end }}
 	if stmt.Offset > 0 {
 		blr.WriteString(" OFFSET " + strconv.FormatUint(stmt.Offset, 10))
 	}
-- 
2.43.0


From eaa12eb5dbb18c1607f28bdb1d7c9343b67abf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:45 +0000
Subject: [PATCH 11/42] fix: quote the columns of a composite key like every
 other column

CompositeKey() returned bare names even with quote_identifier on, so keys that
are reserved words were invalid and never matched the names in Columns().
---
 cmd/sqlgen/codegen/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index f6b8f4a..6658943 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -388,7 +388,7 @@ func (g *Generator) buildCompositeKeys(w io.Writer, importPkgs *Package, table *
 		if i > 0 {
 			fmt.Fprint(w, `,`)
 		}
-		fmt.Fprint(w, g.Quote(f.Name))
+		fmt.Fprint(w, g.Quote(g.QuoteIdentifier(f.Name)))
 	}
 	fmt.Fprint(w, `}, []int{`)
 	for i, f := range table.Keys {
-- 
2.43.0


From 107141ac4e00fb396e027b372f90a50aa3b6b103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:45 +0000
Subject: [PATCH 12/42] fix: number the key placeholder of UpdateOneByPKStmt
 after the columns

With a read-only column the postgres placeholder was one beyond the arguments.
The buffer was also given back to the pool twice, so two later users could
share it.
---
 cmd/sqlgen/codegen/generate.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 6658943..2cefcc4 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -628,11 +628,11 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	}
 	buf.WriteString(" WHERE ")
 	if pk, ok := t.AutoIncrKey(); ok {
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(t.Columns)))
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(columns)+1))
 		columns = append(columns, pk)
 	} else if len(t.Keys) == 1 {
 		pk := t.Keys[0]
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(t.Columns)))
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(columns)+1))
 		columns = append(columns, pk)
 	} else {
 		keyNames := lo.Map(t.Keys, func(v *compiler.Column, _ int) string {
@@ -665,7 +665,6 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	}
 	fprintfln(w, "}")
 	fprintfln(w, "}")
-	strpool.ReleaseString(buf)
 	return nil
 }
 
-- 
2.43.0


From 191698d90896ae21eab398f5223e3e9c51e1d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 13/42] fix: paginate by a valid and exact keyset

Without a cursor the pager compared against a zero value or wrote an empty
WHERE, the filter and the keyset were not put in parentheses, every order
column was compared on its own so that rows were skipped or repeated, nulls
never matched, a composite key was ordered as a row value, Prev did not reverse
the order, a limit of 65535 overflowed, and the next page started by looking up
a record that might be gone by then. Compare the order columns and the primary
key lexicographically with the values of the first unread record.
---
 cmd/sqlgen/codegen/templates/db.go.tpl | 415 ++++++++++---------------
 1 file changed, 159 insertions(+), 256 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 2bd1931..389849e 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1034,118 +1034,70 @@ type Pager[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]] struct {
 	stmt *PaginateStmt
 }
 
+// Prev iterates backwards in the reversed order, starting from the cursor or the
+// last record.
 func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.paginate(ctx, db, true, cursor)
+}
+
+// Next iterates in order, starting from the cursor or the first record.
+func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.paginate(ctx, db, false, cursor)
+}
+
+func (r *Pager[T, Ptr]) paginate(ctx context.Context, db *sql.DB, reverse bool, cursor []T) iter.Seq2[[]T, error] {
 	return func(yield func([]T, error) bool) {
 		var (
 			v         T
 			hasCursor bool
-			maxLimit  = r.stmt.Limit
+			maxLimit  = (int)(r.stmt.Limit)
 		)
 		if len(cursor) > 0 {
 			v = cursor[0]
 			hasCursor = true
+			if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
+				yield(nil, err)
+				return
+			}
 		}
 		blr := AcquireStmt()
 		defer ReleaseStmt(blr)
 
-		for {
-			if hasCursor {
-				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
-					yield(nil, err)
-					return
-				}
+		for page := 0; ; page++ {
+			keys, err := r.pageKeys(&v, reverse)
+			if err != nil {
+				yield(nil, err)
+				return
 			}
 
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
+			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v))
 			if r.stmt.Where != nil {
+				blr.WriteString(" WHERE (")
 				r.stmt.Where(blr)
+				blr.WriteByte(')')
 			}
-
-			if n := len(r.stmt.OrderBy); n > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
-				}
-
-				buf := strpool.AcquireString()
-				for i := 0; i < n; i++ {
-					orderedColumn := r.stmt.OrderBy[i]
-					columnName := orderedColumn.ColumnName()
-					value := values[colDict[columnName]]
-					if orderedColumn.Asc() {
-						// If ascending
-						blr.WriteString(columnName + " <= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " < " + blr.Var(value) + " OR ")
-					} else {
-						// If descending
-						blr.WriteString(columnName + " >= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " > " + blr.Var(value) + " OR ")
-					}
-				}
-				clear(colDict)
-				blr.WriteString("("+ buf.String())
-				strpool.ReleaseString(buf)
-			}
-
 			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") <= " + blr.Vars(vals)+")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("("+pkName + " <= " + blr.Var(val)+")")
-				default:
-					panic("unreachable")
+				if r.stmt.Where != nil {
+					blr.WriteString(" AND ")
+				} else {
+					blr.WriteString(" WHERE ")
 				}
+				writePageKeys(blr, keys)
 			}
-			
-
-			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
-					}
-				}
-				var (
-					suffix  = " DESC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if lastCol.Asc() {
-					suffix = " ASC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +")"+ suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
+			for i := range keys {
+				if i > 0 {
+					blr.WriteByte(',')
+				} else {
+					blr.WriteString(" ORDER BY ")
 				}
-			} else {
-				// If there is no order by clause,
-				// descending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +") DESC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + " DESC")
-				default:
-					panic("unreachable")
+				if keys[i].asc {
+					blr.WriteString(keys[i].column + " ASC")
+				} else {
+					blr.WriteString(keys[i].column + " DESC")
 				}
 			}
 			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
+			blr.WriteString(" LIMIT " + strconv.Itoa(maxLimit+1) + ";")
 
 			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
 			blr.Reset()
@@ -1154,7 +1106,7 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				return
 			}
 
-			data := make([]T, 0, r.stmt.Limit+1)
+			data := make([]T, 0, maxLimit+1)
 			for rows.Next() {
 				var v T
 				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
@@ -1165,199 +1117,150 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				data = append(data, v)
 			}
 			err = rows.Err()
-			rows.Close()
+			if closeErr := rows.Close(); err == nil {
+				err = closeErr
+			}
 			if err != nil {
 				yield(nil, err)
 				return
 			}
 
 			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
-				if !yield(data, nil) {
-					return
+			if noOfRecord <= maxLimit {
+				// The records after the last page may be gone
+				if noOfRecord > 0 || page == 0 {
+					yield(data, nil)
 				}
 				return
 			}
 
-			if !yield(data[:noOfRecord-1], nil) {
+			// Set next cursor, its position is the one it has now even if the
+			// record is changed or deleted before the next page
+			v = data[maxLimit]
+			hasCursor = true
+			if !yield(data[:maxLimit:maxLimit], nil) {
 				return
 			}
-
-			v = data[noOfRecord-1] // Set next cursor
-			data = nil // Reset result
-			hasCursor = true
 		}
 	}
 }
 
-func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
-	return func(yield func([]T, error) bool) {
-		var (
-			v         T
-			hasCursor bool
-			maxLimit  = r.stmt.Limit
-		)
-		if len(cursor) > 0 {
-			v = cursor[0]
-			hasCursor = true
-		}
-		blr := AcquireStmt()
-		defer ReleaseStmt(blr)
-
-		for {
-			if hasCursor {
-				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
-					yield(nil, err)
-					return
-				}
-			}
-
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
-			if r.stmt.Where != nil {
-				r.stmt.Where(blr)
-			}
-
-			if len(r.stmt.OrderBy) > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
-				}
-
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" AND ")
-					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " >= " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " <= " + blr.Var(val))
-					}
-				}
-				blr.WriteString(" AND (")
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" OR ")
-					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " > " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " < " + blr.Var(val))
-					}
-				}
-				clear(colDict)
-				blr.WriteString(" OR ")
-			}
-
-			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") >= " + blr.Vars(vals)+")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("("+pkName + " >= " + blr.Var(val)+")")
-				default:
-					panic("unreachable")
-				}
-			}
-
-			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
-					}
-				}
-				var (
-					suffix  = " ASC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if !lastCol.Asc() {
-					suffix = " DESC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +")"+ suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
-				}
-			} else {
-				// If there is no order by clause,
-				// ascending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +") ASC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName)
-				default:
-					panic("unreachable")
-				}
-			}
-			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
-
-			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
-			blr.Reset()
-			if err != nil {
-				yield(nil, err)
-				return
-			}
+type pageKey struct {
+	column string
+	value  any
+	isNull bool
+	asc    bool
+}
 
-			data := make([]T, 0, r.stmt.Limit+1)
-			for rows.Next() {
-				var v T
-				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
-					rows.Close()
-					yield(nil, err)
-					return
-				}
-				data = append(data, v)
-			}
-			err = rows.Err()
-			rows.Close()
-			if err != nil {
-				yield(nil, err)
-				return
-			}
+// pageKeys returns the columns which the pages are ordered by, the primary key is
+// always the last to make the order unique.
+func (r *Pager[T, Ptr]) pageKeys(v Ptr, reverse bool) ([]pageKey, error) {
+	keys := make([]pageKey, 0, len(r.stmt.OrderBy)+1)
+	asc := true
+	for i := range r.stmt.OrderBy {
+		column := r.stmt.OrderBy[i].ColumnName()
+		value, err := columnValue[T](v, column)
+		if err != nil {
+			return nil, err
+		}
+		asc = r.stmt.OrderBy[i].Asc()
+		keys = append(keys, pageKey{column: column, value: value, asc: asc != reverse})
+	}
+	switch vi := any(v).(type) {
+	case sequel.CompositeKeyer:
+		pkNames, _, vals := vi.CompositeKey()
+		for i := range pkNames {
+			keys = append(keys, pageKey{column: pkNames[i], value: vals[i], asc: asc != reverse})
+		}
+	case sequel.PrimaryKeyer:
+		pkName, _, val := vi.PK()
+		keys = append(keys, pageKey{column: pkName, value: val, asc: asc != reverse})
+	default:
+		panic("unreachable")
+	}
+	for i := range keys {
+		val, err := driver.DefaultParameterConverter.ConvertValue(keys[i].value)
+		keys[i].isNull = err == nil && val == nil
+	}
+	return keys, nil
+}
 
-			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
-				if !yield(data, nil) {
-					return
-				}
-				return
+// columnValue returns the value of a column.
+func columnValue[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](v Ptr, column string) (any, error) {
+	values := v.Values()
+	for i, name := range insertColumns(v) {
+		if name == column && i < len(values) {
+			return values[i], nil
+		}
+	}
+	switch vi := any(v).(type) {
+	case sequel.CompositeKeyer:
+		pkNames, _, vals := vi.CompositeKey()
+		for i := range pkNames {
+			if pkNames[i] == column {
+				return vals[i], nil
 			}
+		}
+	case sequel.PrimaryKeyer:
+		if pkName, _, val := vi.PK(); pkName == column {
+			return val, nil
+		}
+	}
+	// The column is not writable
+	addrs := v.Addrs()
+	for i, name := range v.Columns() {
+		if name == column && i < len(addrs) {
+			return driver.DefaultParameterConverter.ConvertValue(addrs[i])
+		}
+	}
+	return nil, fmt.Errorf("sqlgen: unable to paginate %T by unknown column %s", *v, column)
+}
 
-			if !yield(data[:noOfRecord-1], nil) {
-				return
-			}
+// writePageKeys write the condition of the records from the cursor onwards.
+func writePageKeys(blr *SqlStmt, keys []pageKey) {
+	blr.WriteByte('(')
+	for i := range keys {
+		k := keys[i]
+		// Whether a null comes after the other values
+		nullIsLast := {{ if ne driver "postgres" }}!{{ end }}k.asc
+		if k.isNull && nullIsLast {
+			// Nothing comes after
+			continue
+		}
+		writeEqualKeys(blr, keys[:i])
+		switch {
+		case k.isNull:
+			blr.WriteString(k.column + " IS NOT NULL")
+		case nullIsLast:
+			blr.WriteString("(" + k.column + k.operator() + blr.Var(k.value) + " OR " + k.column + " IS NULL)")
+		default:
+			blr.WriteString(k.column + k.operator() + blr.Var(k.value))
+		}
+		blr.WriteString(" OR ")
+	}
+	last := len(keys) - 1
+	writeEqualKeys(blr, keys[:last])
+	blr.WriteString(keys[last].column + " = " + blr.Var(keys[last].value))
+	blr.WriteByte(')')
+}
 
-			v = data[noOfRecord-1] // Set next cursor
-			data = nil // Reset result
-			hasCursor = true
+func writeEqualKeys(blr *SqlStmt, keys []pageKey) {
+	for i := range keys {
+		if keys[i].isNull {
+			blr.WriteString(keys[i].column + " IS NULL AND ")
+		} else {
+			blr.WriteString(keys[i].column + " = " + blr.Var(keys[i].value) + " AND ")
 		}
 	}
 }
 
+func (k pageKey) operator() string {
+	if k.asc {
+		return " > "
+	}
+	return " < "
+}
+
 type SelectStmt struct {
 	Select    []string
 	FromTable string
-- 
2.43.0


From dbd9381dccd1b27c943df45493fa935ba5e36b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:42 +0000
Subject: [PATCH 14/42] fix: a pointer to a named basic type is not a JSON
 column

The lookup of the column type matched the "*" of the pointer with the wildcard
type, so such a field was written as plain value but scanned as JSON.
---
 cmd/sqlgen/codegen/tool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/tool.go b/cmd/sqlgen/codegen/tool.go
index 3ac4fdc..31a07e0 100644
--- a/cmd/sqlgen/codegen/tool.go
+++ b/cmd/sqlgen/codegen/tool.go
@@ -48,7 +48,8 @@ loop:
 		default:
 			break loop
 		}
-		if v, ok := g.defaultColumnTypes[typeStr]; ok {
+		// The pointer itself isn't the wildcard type
+		if v, ok := g.defaultColumnTypes[typeStr]; ok && typeStr != "*" {
 			return v, true
 		}
 		if prev == t {
-- 
2.43.0


From 22e497d6d0e215ddc52dce27e52d3a7550ff2fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:11 +0000
Subject: [PATCH 15/42] fix: report a number that does not fit the field

Scanning an int64 or float64 into a smaller type cut it silently, as did a
negative number into an unsigned type.
---
 sequel/encoding/float.go | 4 ++++
 sequel/encoding/int.go   | 3 +++
 sequel/encoding/uint.go  | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/sequel/encoding/float.go b/sequel/encoding/float.go
index 5cadbb5..857324d 100644
--- a/sequel/encoding/float.go
+++ b/sequel/encoding/float.go
@@ -3,6 +3,7 @@ package encoding
 import (
 	"database/sql"
 	"fmt"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -52,6 +53,9 @@ func (f *float32Scanner[T, Addr]) Scan(v any) error {
 		}
 	case float64:
 		val := T(vi)
+		if math.IsInf(float64(val), 0) && !math.IsInf(vi, 0) {
+			return fmt.Errorf(`sequel/encoding: value %v overflows %T`, vi, val)
+		}
 		switch any(f.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(f.addr)) = &val
diff --git a/sequel/encoding/int.go b/sequel/encoding/int.go
index a9120bc..47b7e36 100644
--- a/sequel/encoding/int.go
+++ b/sequel/encoding/int.go
@@ -79,6 +79,9 @@ func (i *signedIntScanner[T, Addr]) Scan(v any) error {
 		}
 	case int64:
 		val := T(vi)
+		if int64(val) != vi {
+			return fmt.Errorf(`sequel/encoding: value %d overflows %T`, vi, val)
+		}
 		switch any(i.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(i.addr)) = &val
diff --git a/sequel/encoding/uint.go b/sequel/encoding/uint.go
index 472420d..e714907 100644
--- a/sequel/encoding/uint.go
+++ b/sequel/encoding/uint.go
@@ -80,6 +80,9 @@ func (u *unsignedIntScanner[T, Addr]) Scan(v any) error {
 		}
 	case int64:
 		val := T(vi)
+		if vi < 0 || uint64(val) != uint64(vi) {
+			return fmt.Errorf(`sequel/encoding: value %d overflows %T`, vi, val)
+		}
 		switch any(u.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(u.addr)) = &val
-- 
2.43.0


From 2e0db25614a884661c39fd43ec2dc810ae768aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:11 +0000
Subject: [PATCH 16/42] fix: copy the bytes of the driver

A ~[]byte field kept the driver's buffer, which the next row overwrites.
---
 sequel/encoding/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sequel/encoding/string.go b/sequel/encoding/string.go
index 572406e..8e08a96 100644
--- a/sequel/encoding/string.go
+++ b/sequel/encoding/string.go
@@ -54,7 +54,8 @@ func (s *strScanner[T, Ptr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case []byte:
-		val := T(vi)
+		// The bytes belong to the driver and are only valid until the next row
+		val := T(string(vi))
 		switch any(s.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(s.addr)) = &val
-- 
2.43.0


From 975e97ed27ef969fbbefa4de44827fbeef7485e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:11 +0000
Subject: [PATCH 17/42] fix: replace the whole content of a byte or rune array

A shorter value left the end of the previous one, null left a rune array as it
was, and a string was split into bytes instead of runes.
---
 sequel/encoding/byte_array.go |  2 ++
 sequel/encoding/rune_array.go | 14 +++++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/sequel/encoding/byte_array.go b/sequel/encoding/byte_array.go
index 594943c..411aaf8 100644
--- a/sequel/encoding/byte_array.go
+++ b/sequel/encoding/byte_array.go
@@ -28,6 +28,7 @@ func (s *byteArrScanner[T]) Scan(v any) error {
 		if len(bytes) > s.size {
 			return fmt.Errorf(`sequel/encoding: byte array overflow, should be %d, but it is %d`, s.size, len(b))
 		}
+		clear(s.v)
 		for i := range bytes {
 			s.v[i] = T(bytes[i])
 		}
@@ -35,6 +36,7 @@ func (s *byteArrScanner[T]) Scan(v any) error {
 		if len(b) > s.size {
 			return fmt.Errorf(`sequel/encoding: byte array overflow, should be %d, but it is %d`, s.size, len(b))
 		}
+		clear(s.v)
 		for i := range b {
 			s.v[i] = T(b[i])
 		}
diff --git a/sequel/encoding/rune_array.go b/sequel/encoding/rune_array.go
index 46b75f8..ec885ed 100644
--- a/sequel/encoding/rune_array.go
+++ b/sequel/encoding/rune_array.go
@@ -18,10 +18,11 @@ func RuneArrayScanner[T ~rune](v []T, size int) sql.Scanner {
 func (s *runeArrScanner[T]) Scan(v any) error {
 	switch vi := v.(type) {
 	case nil:
-		s.v = make([]T, s.size)
+		clear(s.v)
 		return nil
 	case []byte:
 		i := int(0)
+		clear(s.v)
 		for len(vi) > 0 {
 			if i >= s.size {
 				return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, i)
@@ -32,11 +33,14 @@ func (s *runeArrScanner[T]) Scan(v any) error {
 			vi = vi[size:]
 		}
 	case string:
-		if len(vi) > s.size {
-			return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, len(vi))
+		if n := utf8.RuneCountInString(vi); n > s.size {
+			return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, n)
 		}
-		for i := range vi {
-			s.v[i] = T(vi[i])
+		clear(s.v)
+		i := int(0)
+		for _, r := range vi {
+			s.v[i] = T(r)
+			i++
 		}
 	default:
 		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for [%d]~rune`, vi, s.size)
-- 
2.43.0


From bf2f2e22e17b3a8205b0dc33139a575fcbfd7eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:49 +0000
Subject: [PATCH 18/42] fix: scan into a nil pointer

PtrScanner and TextScanner called the scanner of the value the pointer had,
which panics when it is nil and changes earlier copies of the model when it is
not.
---
 sequel/encoding/pointer.go |  4 ++++
 sequel/encoding/text.go    | 28 ++++++++++++++++------------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/sequel/encoding/pointer.go b/sequel/encoding/pointer.go
index 5359745..03dd38e 100644
--- a/sequel/encoding/pointer.go
+++ b/sequel/encoding/pointer.go
@@ -26,6 +26,10 @@ type addrOfPtr[T any, Ptr interface {
 }
 
 func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
+	if v != nil {
+		// Always scan into a new value, the pointer may be nil or shared
+		*p.v = Ptr(new(T))
+	}
 	switch vt := v.(type) {
 	case nil:
 		*(*Ptr)(unsafe.Pointer(p.v)) = nil
diff --git a/sequel/encoding/text.go b/sequel/encoding/text.go
index 28afc43..eb563d9 100644
--- a/sequel/encoding/text.go
+++ b/sequel/encoding/text.go
@@ -37,6 +37,10 @@ func TextScanner[T any, Ptr interface {
 }
 
 func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
+	if vi, ok := any(t.v).(**T); ok && v != nil {
+		// Always scan into a new value, the pointer may be nil or shared
+		*vi = new(T)
+	}
 	switch vt := v.(type) {
 	case nil:
 		switch any(t.v).(type) {
@@ -52,8 +56,8 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 		}
 	case string:
 		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(vt), len(vt)))
+		case **T:
+			return Ptr(*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(vt), len(vt)))
 		case Ptr:
 			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(vt), len(vt)))
 		default:
@@ -61,8 +65,8 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 		}
 	case []byte:
 		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(vt)
+		case **T:
+			return Ptr(*vi).UnmarshalText(vt)
 		case Ptr:
 			return vi.UnmarshalText(vt)
 		default:
@@ -74,8 +78,8 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 			b = []byte{1}
 		}
 		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(b)
+		case **T:
+			return Ptr(*vi).UnmarshalText(b)
 		case Ptr:
 			return vi.UnmarshalText(b)
 		default:
@@ -84,8 +88,8 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 	case int64:
 		val := strconv.FormatInt(vt, 10)
 		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
+		case **T:
+			return Ptr(*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
 		case Ptr:
 			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
 		default:
@@ -94,8 +98,8 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 	case float64:
 		val := strconv.FormatFloat(vt, 'f', -1, 64)
 		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
+		case **T:
+			return Ptr(*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
 		case Ptr:
 			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
 
@@ -108,8 +112,8 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 			return err
 		}
 		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(b)
+		case **T:
+			return Ptr(*vi).UnmarshalText(b)
 		case Ptr:
 			return vi.UnmarshalText(b)
 		default:
-- 
2.43.0


From 3cf9408e9cbf917ac8a493396a56474c6d82ad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:49 +0000
Subject: [PATCH 19/42] fix: scanning JSON replaces the whole value

Decoding into the previous value kept keys and fields which the new JSON does
not have, and overwrote the memory of earlier copies.
---
 sequel/encoding/json.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sequel/encoding/json.go b/sequel/encoding/json.go
index f887a95..eae782f 100644
--- a/sequel/encoding/json.go
+++ b/sequel/encoding/json.go
@@ -59,12 +59,23 @@ func (j *jsonScanner[T, Addr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case string:
-		return json.NewDecoder(bytes.NewBufferString(vi)).Decode(j.v)
+		return j.decode(bytes.NewBufferString(vi))
 	case []byte:
-		return json.NewDecoder(bytes.NewBuffer(vi)).Decode(j.v)
+		return j.decode(bytes.NewBuffer(vi))
 	case json.RawMessage:
-		return json.NewDecoder(bytes.NewBuffer(vi)).Decode(j.v)
+		return j.decode(bytes.NewBuffer(vi))
 	default:
 		return fmt.Errorf(`sequel/encoding: invalid scan type for JSON, %T`, v)
 	}
 }
+
+// decode replaces the value, decoding into the existing one would keep whatever the
+// JSON doesn't mention and change the memory it shares with copies.
+func (j *jsonScanner[T, Addr]) decode(buf *bytes.Buffer) error {
+	var val T
+	if err := json.NewDecoder(buf).Decode(&val); err != nil {
+		return err
+	}
+	*(*T)(unsafe.Pointer(j.v)) = val
+	return nil
+}
-- 
2.43.0


From 12663924c7b194b0d4477be00f6a3a405c8449cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:21 +0000
Subject: [PATCH 20/42] fix: a bool slice is stored as a valid JSON array

---
 sequel/sqltype/bool_slice.go | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/sequel/sqltype/bool_slice.go b/sequel/sqltype/bool_slice.go
index 79c22d5..2c771b7 100644
--- a/sequel/sqltype/bool_slice.go
+++ b/sequel/sqltype/bool_slice.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"database/sql/driver"
 	"fmt"
+	"strconv"
 	"unsafe"
 )
 
@@ -22,21 +23,17 @@ func (a BoolSlice[T]) Value() (driver.Value, error) {
 	}
 
 	if n := len(a); n > 0 {
-		// There will be exactly two curly brackets, N bytes of values,
-		// and N-1 bytes of delimiters.
-		b := make([]byte, 1+2*n)
+		// A JSON array has to spell its booleans out, there will be exactly
+		// two brackets, at most 5*N bytes of values, and N-1 bytes of delimiters.
+		b := make([]byte, 1, 1+6*n)
+		b[0] = '['
 
-		for i := 0; i < n; i++ {
-			b[2*i] = ','
-			if a[i] {
-				b[1+2*i] = 't'
-			} else {
-				b[1+2*i] = 'f'
-			}
+		b = strconv.AppendBool(b, bool(a[0]))
+		for i := 1; i < n; i++ {
+			b = append(b, ',')
+			b = strconv.AppendBool(b, bool(a[i]))
 		}
-
-		b[0] = '['
-		b[2*n] = ']'
+		b = append(b, ']')
 		return unsafe.String(unsafe.SliceData(b), len(b)), nil
 	}
 	return "[]", nil
@@ -66,13 +63,10 @@ func (a *BoolSlice[T]) scanBytes(src []byte) error {
 	} else {
 		b := make(BoolSlice[T], len(elems))
 		for i, v := range elems {
-			if len(v) != 1 {
-				return fmt.Errorf("sqltype: could not parse boolean array index %d: invalid boolean %q", i, v)
-			}
-			switch v[0] {
-			case 't':
+			switch string(v) {
+			case "true", "t":
 				b[i] = true
-			case 'f':
+			case "false", "f":
 				b[i] = false
 			default:
 				return fmt.Errorf("sqltype: could not parse boolean array index %d: invalid boolean %q", i, v)
-- 
2.43.0


From 8f9557226d992d2d11a15ab3f78aef8477121c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:21 +0000
Subject: [PATCH 21/42] fix: report a slice element that does not fit its type

---
 sequel/sqltype/int_slice.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/sequel/sqltype/int_slice.go b/sequel/sqltype/int_slice.go
index 932de30..db749eb 100644
--- a/sequel/sqltype/int_slice.go
+++ b/sequel/sqltype/int_slice.go
@@ -3,6 +3,7 @@ package sqltype
 import (
 	"database/sql/driver"
 	"fmt"
+	"math/bits"
 	"strconv"
 	"unsafe"
 )
@@ -23,7 +24,7 @@ func (a IntSlice[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *IntSlice[T]) Scan(src any) error {
-	return arrayScan(a, src, "IntSlice")
+	return arrayScan(bits.UintSize, a, src, "IntSlice")
 }
 
 // Value implements the driver.Valuer interface.
@@ -33,7 +34,7 @@ func (a Int8Slice[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *Int8Slice[T]) Scan(src any) error {
-	return arrayScan(a, src, "Int8Slice")
+	return arrayScan(8, a, src, "Int8Slice")
 }
 
 // Value implements the driver.Valuer interface.
@@ -43,7 +44,7 @@ func (a Int16Slice[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *Int16Slice[T]) Scan(src any) error {
-	return arrayScan(a, src, "Int16Slice")
+	return arrayScan(16, a, src, "Int16Slice")
 }
 
 // Value implements the driver.Valuer interface.
@@ -53,7 +54,7 @@ func (a Int32Slice[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *Int32Slice[T]) Scan(src any) error {
-	return arrayScan(a, src, "Int32Slice")
+	return arrayScan(32, a, src, "Int32Slice")
 }
 
 // Value implements the driver.Valuer interface.
@@ -63,11 +64,11 @@ func (a Int64Slice[T]) Value() (driver.Value, error) {
 
 // Scan implements the sql.Scanner interface.
 func (a *Int64Slice[T]) Scan(src any) error {
-	return arrayScan(a, src, "Int64Slice")
+	return arrayScan(64, a, src, "Int64Slice")
 }
 
 func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
-	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](a *Arr, src []byte, t string) error {
+	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](bitSize int, a *Arr, src []byte, t string) error {
 	elems, err := scanLinearArray(src, []byte{','}, t)
 	if err != nil {
 		return err
@@ -77,7 +78,7 @@ func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 	} else {
 		b := make([]T, len(elems))
 		for i, v := range elems {
-			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, 64)
+			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, bitSize)
 			if err != nil {
 				return fmt.Errorf("sqltype: parsing array element index %d: %v", i, err)
 			}
@@ -89,12 +90,12 @@ func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 }
 
 func arrayScan[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
-	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](a *Arr, src any, t string) error {
+	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](bitSize int, a *Arr, src any, t string) error {
 	switch src := src.(type) {
 	case []byte:
-		return scanBytes(a, src, t)
+		return scanBytes(bitSize, a, src, t)
 	case string:
-		return scanBytes(a, unsafe.Slice(unsafe.StringData(src), len(src)), t)
+		return scanBytes(bitSize, a, unsafe.Slice(unsafe.StringData(src), len(src)), t)
 	case nil:
 		*a = nil
 		return nil
-- 
2.43.0


From 11ffe9dcbceb59e620bbdef831a6d90243bebc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:21 +0000
Subject: [PATCH 22/42] fix: read and write arrays as JSON

---
 sequel/sqltype/string_slice.go | 84 ++++++++++++++++++++++++++++------
 1 file changed, 69 insertions(+), 15 deletions(-)

diff --git a/sequel/sqltype/string_slice.go b/sequel/sqltype/string_slice.go
index 38544e1..8e8ae84 100644
--- a/sequel/sqltype/string_slice.go
+++ b/sequel/sqltype/string_slice.go
@@ -4,7 +4,10 @@ import (
 	"bytes"
 	"database/sql/driver"
 	"fmt"
+	"strconv"
 	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
 	"unsafe"
 )
 
@@ -78,6 +81,8 @@ func parseArray(src, del []byte) (dims []int, elems [][]byte, err error) {
 Open:
 	for i < len(src) {
 		switch src[i] {
+		case ' ', '\t', '\n', '\r':
+			i++
 		case '[':
 			depth++
 			i++
@@ -88,11 +93,13 @@ Open:
 			break Open
 		}
 	}
-	dims = make([]int, i)
+	dims = make([]int, depth)
 
 Element:
 	for i < len(src) {
 		switch src[i] {
+		case ' ', '\t', '\n', '\r':
+			i++
 		case '[':
 			if depth == len(dims) {
 				break Element
@@ -105,7 +112,9 @@ Element:
 			var escape bool
 			for i++; i < len(src); i++ {
 				if escape {
-					elem = append(elem, src[i])
+					n := 0
+					elem, n = appendUnescaped(elem, src[i:])
+					i += n - 1
 					escape = false
 				} else {
 					switch src[i] {
@@ -123,7 +132,7 @@ Element:
 		default:
 			for start := i; i < len(src); i++ {
 				if bytes.HasPrefix(src[i:], del) || src[i] == ']' {
-					elem := src[start:i]
+					elem := bytes.TrimRight(src[start:i], " \t\r\n")
 					if len(elem) == 0 {
 						return nil, nil, fmt.Errorf("sqltype: unable to parse array; unexpected %q at offset %d", src[i], i)
 					}
@@ -138,7 +147,9 @@ Element:
 	}
 
 	for i < len(src) {
-		if bytes.HasPrefix(src[i:], del) && depth > 0 {
+		if isSpace(src[i]) {
+			i++
+		} else if bytes.HasPrefix(src[i:], del) && depth > 0 {
 			dims[depth-1]++
 			i += len(del)
 			goto Element
@@ -153,7 +164,9 @@ Element:
 
 Close:
 	for i < len(src) {
-		if src[i] == ']' && depth > 0 {
+		if isSpace(src[i]) {
+			i++
+		} else if src[i] == ']' && depth > 0 {
 			depth--
 			i++
 		} else {
@@ -184,19 +197,60 @@ func scanLinearArray(src, del []byte, typ string) (elems [][]byte, err error) {
 	return elems, err
 }
 
+func isSpace(c byte) bool {
+	return c == ' ' || c == '\t' || c == '\n' || c == '\r'
+}
+
 func appendArrayQuotedBytes(b, v []byte) []byte {
+	const hex = "0123456789abcdef"
 	b = append(b, '"')
-	for {
-		i := bytes.IndexAny(v, `"\`)
-		if i < 0 {
-			b = append(b, v...)
-			break
-		}
-		if i > 0 {
-			b = append(b, v[:i]...)
+	for _, c := range v {
+		switch {
+		case c == '"' || c == '\\':
+			b = append(b, '\\', c)
+		case c < 0x20:
+			// a JSON string can't hold a bare control character
+			b = append(b, '\\', 'u', '0', '0', hex[c>>4], hex[c&0xf])
+		default:
+			b = append(b, c)
 		}
-		b = append(b, '\\', v[i])
-		v = v[i+1:]
 	}
 	return append(b, '"')
 }
+
+// appendUnescaped appends the character that src, which follows a backslash,
+// stands for. It returns how many bytes of src make up the escape sequence.
+func appendUnescaped(b, src []byte) ([]byte, int) {
+	switch src[0] {
+	case 'b':
+		return append(b, '\b'), 1
+	case 'f':
+		return append(b, '\f'), 1
+	case 'n':
+		return append(b, '\n'), 1
+	case 'r':
+		return append(b, '\r'), 1
+	case 't':
+		return append(b, '\t'), 1
+	case 'u':
+		if r, ok := hexRune(src[1:]); ok {
+			if len(src) > 6 && src[5] == '\\' && src[6] == 'u' {
+				if low, ok := hexRune(src[7:]); ok {
+					if dec := utf16.DecodeRune(r, low); dec != utf8.RuneError {
+						return utf8.AppendRune(b, dec), 11
+					}
+				}
+			}
+			return utf8.AppendRune(b, r), 5
+		}
+	}
+	return append(b, src[0]), 1
+}
+
+func hexRune(src []byte) (rune, bool) {
+	if len(src) < 4 {
+		return 0, false
+	}
+	n, err := strconv.ParseUint(string(src[:4]), 16, 16)
+	return rune(n), err == nil
+}
-- 
2.43.0


From 725372c87a639785461c86936d252adfa5ab23fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:26 +0000
Subject: [PATCH 23/42] fix: an upsert must not allocate the nil pointers of
 the record

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 389849e..c7f0e18 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -597,7 +597,16 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 			// The last insert id is the one of an earlier insert when the row
 			// exists already, ask for the key of the affected row instead
 			stmt.WriteString(" RETURNING " + pkName + ";")
-			err := db.QueryRowContext(ctx, stmt.String(), model.Values()...).Scan(model.Addrs()[idx])
+			row := db.QueryRowContext(ctx, stmt.String(), model.Values()...)
+			var err error
+			if v, ok := any(model).(interface{ ScanAutoIncr(int64) error }); ok {
+				var i64 int64
+				if err = row.Scan(&i64); err == nil {
+					err = v.ScanAutoIncr(i64)
+				}
+			} else {
+				err = row.Scan(model.Addrs()[idx])
+			}
 			if err == sql.ErrNoRows && !override {
 				return sequel.NewRowsAffectedResult(0), nil
 			}
@@ -618,6 +627,9 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 				// No key is generated when the row is ignored
 				return result, nil
 			}
+			if v, ok := any(model).(interface{ ScanAutoIncr(int64) error }); ok {
+				return result, v.ScanAutoIncr(i64)
+			}
 			switch v := model.Addrs()[idx].(type) {
 			case *int64:
 				*v = i64
-- 
2.43.0


From 1189b9e35ad027b7eb59815a91fdaa27de36979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:13 +0000
Subject: [PATCH 24/42] fix: never damage the previous output of the generator

---
 cmd/sqlgen/codegen/codegen.go            | 27 +++++++++++----
 cmd/sqlgen/codegen/generate.go           | 16 ++++-----
 cmd/sqlgen/codegen/init.go               |  6 ++--
 cmd/sqlgen/internal/compiler/parser.go   | 11 ++++--
 cmd/sqlgen/internal/fileutil/fileutil.go | 43 ++++++++++++++++++++++++
 5 files changed, 81 insertions(+), 22 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 7ca3d3a..93c4e98 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -1,6 +1,7 @@
 package codegen
 
 import (
+	"bytes"
 	"embed"
 	"errors"
 	"fmt"
@@ -12,7 +13,6 @@ import (
 	"path/filepath"
 	"regexp"
 	"strings"
-	"syscall"
 
 	"github.com/Masterminds/semver/v3"
 
@@ -158,7 +158,6 @@ func Generate(c *Config) error {
 
 	if cfg.Database != nil {
 		// Generate db code
-		_ = syscall.Unlink(filepath.Join(cfg.Database.Dir, cfg.Database.Filename))
 		if err := renderTemplate(
 			generator,
 			"db.go.tpl",
@@ -172,7 +171,6 @@ func Generate(c *Config) error {
 	}
 
 	if cfg.Database.Operator != nil {
-		_ = syscall.Unlink(filepath.Join(cfg.Database.Dir, cfg.Database.Operator.Filename))
 		if err := renderTemplate(
 			generator,
 			"operator.go.tpl",
@@ -224,9 +222,6 @@ func parseGoPackage(
 		}
 
 		filename = path.Join(dir, g.config.Exec.Filename)
-		// Unlink the generated file, ignore the error
-		_ = syscall.Unlink(filename)
-
 		slog.Info("Parse go package", "dir", dir)
 		// Since we're loading one directory at a time,
 		// the return results will only return one package back
@@ -234,8 +229,14 @@ func parseGoPackage(
 			Tag:        g.config.Tag,
 			RenameFunc: rename,
 			Matcher:    matcher,
+			// What an earlier run generated takes no part in the next one
+			Exclude: filename,
 		})
 		if errors.Is(err, compiler.ErrSkip) {
+			// Nothing to generate any more, so the generated file is obsolete
+			if err := removeGenerated(filename); err != nil {
+				return err
+			}
 			goto nextDir
 		} else if err != nil {
 			return err
@@ -267,6 +268,20 @@ func parseGoPackage(
 	return nil
 }
 
+// removeGenerated removes the file when it is one that sqlgen has generated.
+func removeGenerated(filename string) error {
+	b, err := os.ReadFile(filename)
+	if errors.Is(err, fs.ErrNotExist) {
+		return nil
+	} else if err != nil {
+		return err
+	}
+	if !bytes.HasPrefix(b, []byte(generatedHeader)) {
+		return nil
+	}
+	return os.Remove(filename)
+}
+
 func goModTidy() error {
 	tidyCmd := exec.Command("go", "mod", "tidy")
 	tidyCmd.Stdout = os.Stdout
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 2cefcc4..445797b 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -19,6 +19,7 @@ import (
 	"github.com/si3nloong/sqlgen"
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect"
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/compiler"
+	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/fileutil"
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/goutil"
 	"github.com/si3nloong/sqlgen/sequel/encoding"
 	"github.com/si3nloong/sqlgen/sequel/strpool"
@@ -38,6 +39,9 @@ var goTypes = []string{
 	// "any", "sql.RawBytes", "json.RawMessage"
 }
 
+// How every generated file starts
+const generatedHeader = "// Code generated by sqlgen,"
+
 type Generator struct {
 	config             *Config
 	dialect            dialect.Dialect
@@ -341,12 +345,6 @@ func (g *Generator) generateModels(
 		return err
 	}
 	fileDest := filepath.Join(dstDir, g.config.Exec.Filename)
-	f, err := os.OpenFile(fileDest, os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.ModePerm)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
-
 	rw := bytes.NewBufferString(``)
 	g.buildHeader(rw)
 	fprintfln(rw, "package %s", schema.Pkg.Name)
@@ -372,13 +370,11 @@ func (g *Generator) generateModels(
 		return err
 	}
 
-	mustNoError(f.Write(formatted))
-
-	return f.Close()
+	return fileutil.WriteFile(fileDest, formatted, os.ModePerm)
 }
 
 func (g *Generator) buildHeader(w io.Writer) {
-	fmt.Fprintf(w, "// Code generated by sqlgen, version %s; DO NOT EDIT.\n\n", sqlgen.Version)
+	fmt.Fprintf(w, generatedHeader+" version %s; DO NOT EDIT.\n\n", sqlgen.Version)
 }
 
 func (g *Generator) buildCompositeKeys(w io.Writer, importPkgs *Package, table *compiler.Table) {
diff --git a/cmd/sqlgen/codegen/init.go b/cmd/sqlgen/codegen/init.go
index 3c2abba..3c9ddd2 100644
--- a/cmd/sqlgen/codegen/init.go
+++ b/cmd/sqlgen/codegen/init.go
@@ -12,6 +12,7 @@ import (
 	"text/template"
 
 	"github.com/goccy/go-yaml"
+	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/fileutil"
 	"golang.org/x/tools/imports"
 )
 
@@ -109,10 +110,7 @@ func renderTemplate(
 	}
 
 	slog.Info("Creating " + fileDest)
-	if err := os.WriteFile(fileDest, formatted, os.ModePerm); err != nil {
-		return err
-	}
-	return nil
+	return fileutil.WriteFile(fileDest, formatted, os.ModePerm)
 }
 
 func reserveImport(impPkgs *Package) func(pkgPath string, aliases ...string) string {
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 1ff95d0..6486174 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -6,6 +6,7 @@ import (
 	"go/token"
 	"go/types"
 	"log"
+	"os"
 	"reflect"
 	"regexp"
 	"sort"
@@ -26,16 +27,22 @@ type Config struct {
 	Tag        string
 	RenameFunc func(string) string
 	Matcher    Matcher
+	// The file which does not belong to the sources
+	Exclude string
 }
 
 var annotationRegexp = regexp.MustCompile(`(?i)\s*\+sql\:(.*)`)
 
 func Parse(dir string, cfg *Config) (*Package, error) {
 	// Load single go package and inspect the structs
-	pkgs, err := packages.Load(&packages.Config{
+	loadCfg := &packages.Config{
 		Dir:  dir,
 		Mode: pkgMode,
-	})
+	}
+	if _, err := os.Stat(cfg.Exclude); err == nil {
+		loadCfg.Overlay = map[string][]byte{cfg.Exclude: []byte("//go:build sqlgen && !sqlgen\n\npackage sqlgen\n")}
+	}
+	pkgs, err := packages.Load(loadCfg)
 	if err != nil {
 		return nil, err
 	} else if len(pkgs) == 0 {
diff --git a/cmd/sqlgen/internal/fileutil/fileutil.go b/cmd/sqlgen/internal/fileutil/fileutil.go
index ab0804a..630d46a 100644
--- a/cmd/sqlgen/internal/fileutil/fileutil.go
+++ b/cmd/sqlgen/internal/fileutil/fileutil.go
@@ -1,6 +1,8 @@
 package fileutil
 
 import (
+	"errors"
+	"fmt"
 	"io/fs"
 	"os"
 	"path/filepath"
@@ -19,6 +21,47 @@ func IsFileExists(path string) bool {
 	return err == nil
 }
 
+// WriteFile replaces the content of the file as a whole: the data goes to a
+// temporary file beside it, which takes over the name once it is complete. The
+// file is either as it was before or holds all of the data, also when the
+// process is interrupted or a write fails.
+func WriteFile(filename string, data []byte, perm fs.FileMode) (err error) {
+	f, err := createTemp(filename, perm)
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			_ = os.Remove(f.Name())
+		}
+	}()
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(f.Name(), filename)
+}
+
+// createTemp creates a new file beside the given one. Its name starts with a
+// dot, so go tools never take it as part of the package.
+func createTemp(filename string, perm fs.FileMode) (*os.File, error) {
+	dir, base := filepath.Split(filename)
+	for i := 0; ; i++ {
+		name := filepath.Join(dir, fmt.Sprintf(".%s.%d-%d.tmp", base, os.Getpid(), i))
+		f, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+		if errors.Is(err, fs.ErrExist) && i < 1000 {
+			continue
+		}
+		return f, err
+	}
+}
+
 func CurDir() string {
 	_, path, _, _ := runtime.Caller(1)
 	return filepath.Dir(path)
-- 
2.43.0


From 10c3420b62403be33b22c1805746008ac7f47349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:05 +0000
Subject: [PATCH 25/42] fix: report that standard packages cannot be loaded
 instead of crashing

---
 cmd/sqlgen/codegen/generate.go  |  3 +++
 cmd/sqlgen/codegen/interface.go | 21 ++++++++++++++-------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 445797b..b7b14b4 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -53,6 +53,9 @@ type Generator struct {
 }
 
 func newGenerator(cfg *Config, d dialect.Dialect) (*Generator, error) {
+	if err := loadInterfaces(); err != nil {
+		return nil, err
+	}
 	gen := new(Generator)
 	gen.config = cfg
 	switch d.QuoteRune() {
diff --git a/cmd/sqlgen/codegen/interface.go b/cmd/sqlgen/codegen/interface.go
index 7a66af4..aa291df 100644
--- a/cmd/sqlgen/codegen/interface.go
+++ b/cmd/sqlgen/codegen/interface.go
@@ -1,11 +1,13 @@
 package codegen
 
 import (
+	"fmt"
 	"go/ast"
 	"go/importer"
 	"go/parser"
 	"go/token"
 	"go/types"
+	"sync"
 
 	_ "embed"
 
@@ -27,15 +29,19 @@ var (
 	sqlBytes []byte
 )
 
-func init() {
+// loadInterfaces resolves the interfaces above, it needs the go command.
+var loadInterfaces = sync.OnceValue(func() error {
 	pkgs, err := packages.Load(&packages.Config{
-		Mode: packages.NeedTypes,
-	}, "time", "sync", "database/sql...", "encoding")
+		Mode: packages.NeedName | packages.NeedTypes,
+	}, "time", "database/sql", "database/sql/driver", "encoding")
 	if err != nil {
-		panic(err)
+		return fmt.Errorf(`sqlgen: failed to load standard packages: %w`, err)
 	}
 
 	for _, p := range pkgs {
+		if len(p.Errors) > 0 {
+			return fmt.Errorf(`sqlgen: failed to load package %q: %w`, p.ID, p.Errors[0])
+		}
 		switch p.ID {
 		case "database/sql/driver":
 			goSqlValuer = p.Types.Scope().Lookup("Valuer").Type().Underlying().(*types.Interface)
@@ -54,12 +60,12 @@ func init() {
 	fset := token.NewFileSet()
 	f, err := parser.ParseFile(fset, "", sqlBytes, parser.AllErrors)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	conf := types.Config{Importer: importer.Default()}
 	pkg, err := conf.Check("sequel", fset, []*ast.File{f}, nil)
 	if err != nil {
-		panic(err)
+		return fmt.Errorf(`sqlgen: failed to load package "sequel": %w`, err)
 	}
 	sqlDatabaser = pkg.Scope().Lookup("Databaser").Type().Underlying().(*types.Interface)
 	sqlTabler = pkg.Scope().Lookup("Tabler").Type().Underlying().(*types.Interface)
@@ -67,4 +73,5 @@ func init() {
 	sqlQueryColumner = pkg.Scope().Lookup("SQLColumner").Type().Underlying().(*types.Interface)
 	sqlValuer = pkg.Scope().Lookup("Valuer").Type().Underlying().(*types.Interface)
 	sqlScanner = pkg.Scope().Lookup("Scanner").Type().Underlying().(*types.Interface)
-}
+	return nil
+})
-- 
2.43.0


From 6eaddb676d3bebbcc2f7a3a53e847ccdc6e83718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:51 +0000
Subject: [PATCH 26/42] fix: generate the same code whether or not embedded
 structs were generated before

---
 cmd/sqlgen/codegen/codegen.go            |  2 +-
 cmd/sqlgen/codegen/generate.go           |  5 +----
 cmd/sqlgen/internal/compiler/compiler.go | 26 ++++++++++++++++++++++--
 cmd/sqlgen/internal/compiler/parser.go   | 21 +++++++++++++++++++
 4 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 93c4e98..2856d47 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -276,7 +276,7 @@ func removeGenerated(filename string) error {
 	} else if err != nil {
 		return err
 	}
-	if !bytes.HasPrefix(b, []byte(generatedHeader)) {
+	if !bytes.HasPrefix(b, []byte(compiler.GeneratedHeader)) {
 		return nil
 	}
 	return os.Remove(filename)
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index b7b14b4..8b925da 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -39,9 +39,6 @@ var goTypes = []string{
 	// "any", "sql.RawBytes", "json.RawMessage"
 }
 
-// How every generated file starts
-const generatedHeader = "// Code generated by sqlgen,"
-
 type Generator struct {
 	config             *Config
 	dialect            dialect.Dialect
@@ -377,7 +374,7 @@ func (g *Generator) generateModels(
 }
 
 func (g *Generator) buildHeader(w io.Writer) {
-	fmt.Fprintf(w, generatedHeader+" version %s; DO NOT EDIT.\n\n", sqlgen.Version)
+	fmt.Fprintf(w, compiler.GeneratedHeader+" version %s; DO NOT EDIT.\n\n", sqlgen.Version)
 }
 
 func (g *Generator) buildCompositeKeys(w io.Writer, importPkgs *Package, table *compiler.Table) {
diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index 629a7b8..a3e8756 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -13,6 +13,9 @@ import (
 	"golang.org/x/tools/go/packages"
 )
 
+// GeneratedHeader is how every generated file starts
+const GeneratedHeader = "// Code generated by sqlgen,"
+
 var (
 	ErrSkip = errors.New(`compiler: skip code generation`)
 
@@ -40,6 +43,8 @@ type Table struct {
 	Columns []*Column
 
 	t types.Type
+	// Reports whether sqlgen has generated the object
+	generated func(types.Object) bool
 	// +sqlgen:readonly
 	Readonly    bool
 	autoIncrKey *Column
@@ -91,11 +96,28 @@ func (t *Table) InsertColumns() []*Column {
 }
 
 func (t *Table) Implements(T *types.Interface) (*types.Func, bool) {
-	return types.MissingMethod(t.t, T, true)
+	return t.missingMethod(t.t, T)
 }
 
 func (t *Table) PtrImplements(T *types.Interface) (*types.Func, bool) {
-	return types.MissingMethod(types.NewPointer(t.t), T, true)
+	return t.missingMethod(types.NewPointer(t.t), T)
+}
+
+// missingMethod is like [types.MissingMethod], but a method promoted from an
+// embedded struct counts as missing when sqlgen has generated it: it is about
+// the table of the embedded struct, and it comes and goes with the output of
+// the generator.
+func (t *Table) missingMethod(typ types.Type, T *types.Interface) (*types.Func, bool) {
+	if method, wrongType := types.MissingMethod(typ, T, true); method != nil {
+		return method, wrongType
+	}
+	for i := range T.NumMethods() {
+		method := T.Method(i)
+		if obj, _, _ := types.LookupFieldOrMethod(typ, true, nil, method.Name()); obj != nil && t.generated(obj) {
+			return method, false
+		}
+	}
+	return nil, false
 }
 
 type Column struct {
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 6486174..57e0a15 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -159,6 +159,8 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		return types.ExprString(structCaches[i].name) < types.ExprString(structCaches[j].name)
 	})
 
+	generated := generatedBySqlgen(pkgs)
+
 	goPkg := new(Package)
 	goPkg.Pkg = pkg
 	goPkg.Tables = make([]*Table, 0, len(structCaches))
@@ -356,6 +358,8 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 			GoName: types.ExprString(s.name),
 			Name:   cfg.RenameFunc(types.ExprString(s.name)),
 			t:      pkg.TypesInfo.TypeOf(s.name),
+
+			generated: generated,
 		}
 
 		// To store struct fields, to prevent field name collision
@@ -469,6 +473,23 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 	return goPkg, nil
 }
 
+// generatedBySqlgen returns whether an object is declared in a file which was
+// generated by sqlgen.
+func generatedBySqlgen(pkgs []*packages.Package) func(types.Object) bool {
+	files := make(map[string]struct{})
+	packages.Visit(pkgs, nil, func(p *packages.Package) {
+		for _, f := range p.Syntax {
+			if len(f.Comments) > 0 && strings.HasPrefix(f.Comments[0].List[0].Text, GeneratedHeader) {
+				files[p.Fset.Position(f.Package).Filename] = struct{}{}
+			}
+		}
+	})
+	return func(obj types.Object) bool {
+		_, ok := files[pkgs[0].Fset.Position(obj.Pos()).Filename]
+		return ok
+	}
+}
+
 // This is to count the underlying pointer of a type
 func ptrCount(t types.Type) int {
 	var total int
-- 
2.43.0


From 4e4f86cee6fb39d1c7572bf13df6c66e6fa2d13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:19 +0000
Subject: [PATCH 27/42] fix: report everything that could not be mapped

---
 cmd/sqlgen/codegen/codegen.go  |  4 +++
 cmd/sqlgen/codegen/generate.go | 53 +++++++++++++++++++++++++---------
 2 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 2856d47..e706dea 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -183,6 +183,10 @@ func Generate(c *Config) error {
 		}
 	}
 
+	if err := errors.Join(generator.errs...); err != nil {
+		return err
+	}
+
 	if cfg.SkipModTidy {
 		return nil
 	}
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 8b925da..d2b3533 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"database/sql"
+	"errors"
 	"fmt"
 	"go/types"
 	"io"
@@ -88,12 +89,16 @@ func newGenerator(cfg *Config, d dialect.Dialect) (*Generator, error) {
 }
 
 func (g *Generator) LogError(err error) {
-	// When it's strict mode, the program will stop once
-	// it encounter any error
+	g.errs = append(g.errs, err)
+}
+
+// strictErr returns the errors so far when it's strict mode, where the program
+// will stop once it encounter any error
+func (g *Generator) strictErr() error {
 	if g.config.Strict != nil && *g.config.Strict {
-		panic(err)
+		return errors.Join(g.errs...)
 	}
-	g.errs = append(g.errs, err)
+	return nil
 }
 
 func (g *Generator) Quote(str string) string {
@@ -180,7 +185,9 @@ func (g *Generator) generateModels(
 		if method, isWrongType := t.Implements(sqlQueryColumner); isWrongType {
 			g.LogError(fmt.Errorf(`sqlgen: struct %q has function "SQLColumns" but wrong footprint`, t.Name))
 		} else if method != nil && !isWrongType {
-			g.buildSqlColumns(w, t)
+			if err := g.buildSqlColumns(w, t); err != nil {
+				return err
+			}
 		}
 
 		// Build the "Columns" function which return the column names
@@ -249,14 +256,20 @@ func (g *Generator) generateModels(
 					fprintfln(w, "}")
 				}
 
-				g.buildInsertOne(w, importPkgs, t)
+				if err := g.buildInsertOne(w, importPkgs, t); err != nil {
+					return err
+				}
 			}
 		}
 
 		if t.HasPK() {
-			g.buildFindByPK(w, importPkgs, t)
+			if err := g.buildFindByPK(w, importPkgs, t); err != nil {
+				return err
+			}
 			if !t.Readonly && len(t.ColumnsWithoutPK()) > 0 {
-				g.buildUpdateByPK(w, importPkgs, t)
+				if err := g.buildUpdateByPK(w, importPkgs, t); err != nil {
+					return err
+				}
 			}
 		}
 
@@ -338,6 +351,9 @@ func (g *Generator) generateModels(
 		if err := w.Flush(); err != nil {
 			return err
 		}
+		if err := g.strictErr(); err != nil {
+			return err
+		}
 		schema.Tables = schema.Tables[1:]
 	}
 
@@ -419,9 +435,12 @@ func (g *Generator) buildSqlColumns(w io.Writer, t *compiler.Table) error {
 		t, _ := underlyingType(column.Type)
 		if typeMapper, ok := g.config.DataTypes[t.String()]; ok && typeMapper.SQLScanner != nil {
 			hasSQLScanner = true
-			t := template.Must(template.New("scanner").Parse(*typeMapper.SQLScanner))
+			tmpl, err := template.New("scanner").Parse(*typeMapper.SQLScanner)
+			if err != nil {
+				return err
+			}
 			buf := strpool.AcquireString()
-			if err := t.Execute(buf, g.QuoteIdentifier(column.Name)); err != nil {
+			if err := tmpl.Execute(buf, g.QuoteIdentifier(column.Name)); err != nil {
 				strpool.ReleaseString(buf)
 				return err
 			}
@@ -741,10 +760,13 @@ func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) st
 func (g *Generator) sqlScanner(column *compiler.Column) (string, error) {
 	t, _ := underlyingType(column.Type)
 	if typeMapper, ok := g.config.DataTypes[t.String()]; ok && typeMapper.SQLScanner != nil {
-		t := template.Must(template.New("scanner").Parse(*typeMapper.SQLScanner))
+		tmpl, err := template.New("scanner").Parse(*typeMapper.SQLScanner)
+		if err != nil {
+			return "", err
+		}
 		buf := strpool.AcquireString()
 		defer strpool.ReleaseString(buf)
-		if err := t.Execute(buf, g.MustQuoteIdentifier(column.Name)); err != nil {
+		if err := tmpl.Execute(buf, g.MustQuoteIdentifier(column.Name)); err != nil {
 			return "", err
 		}
 		return buf.String(), nil
@@ -755,10 +777,13 @@ func (g *Generator) sqlScanner(column *compiler.Column) (string, error) {
 func (g *Generator) sqlValuer(column *compiler.Column, idx int) (string, error) {
 	t, _ := underlyingType(column.Type)
 	if typeMapper, ok := g.config.DataTypes[t.String()]; ok && typeMapper.SQLValuer != nil {
-		t := template.Must(template.New("valuer").Parse(*typeMapper.SQLValuer))
+		tmpl, err := template.New("valuer").Parse(*typeMapper.SQLValuer)
+		if err != nil {
+			return "", err
+		}
 		buf := strpool.AcquireString()
 		defer strpool.ReleaseString(buf)
-		if err := t.Execute(buf, g.dialect.QuoteVar(idx+1)); err != nil {
+		if err := tmpl.Execute(buf, g.dialect.QuoteVar(idx+1)); err != nil {
 			return "", err
 		}
 		return buf.String(), nil
-- 
2.43.0


From 9585f11a39c4d49d8893e030b172bad9861ddf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:47 +0000
Subject: [PATCH 28/42] fix: report an invalid expression of the configuration
 instead of crashing

---
 cmd/sqlgen/codegen/codegen.go |  4 +++-
 cmd/sqlgen/codegen/expr.go    | 21 +++++++++++++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index e706dea..94cd283 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -40,7 +40,9 @@ var (
 	// sqlFuncRegexp = regexp.MustCompile(`(?i)\s*(\w+\()(\w+\s*\,\s*)?(\{\})(\s*\,\s*\w+)?(\))\s*`)
 )
 
-func Generate(c *Config) error {
+func Generate(c *Config) (err error) {
+	defer recoverExprError(&err)
+
 	vldr := validator.New()
 	if err := vldr.Struct(c); err != nil {
 		return err
diff --git a/cmd/sqlgen/codegen/expr.go b/cmd/sqlgen/codegen/expr.go
index e6468be..da2510d 100644
--- a/cmd/sqlgen/codegen/expr.go
+++ b/cmd/sqlgen/codegen/expr.go
@@ -2,6 +2,7 @@ package codegen
 
 import (
 	"bytes"
+	"fmt"
 	"go/types"
 	"path/filepath"
 	"regexp"
@@ -95,17 +96,33 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 	str := string(e)
 	tmpl, err := template.New("expression").Funcs(funcMap).Parse(str)
 	if err != nil {
-		panic(err)
+		panic(exprError{fmt.Errorf(`sqlgen: invalid expression %q: %w`, str, err)})
 	}
 	buf := new(bytes.Buffer)
 	if err := tmpl.Execute(buf, actualGoPath); err != nil {
-		panic(err)
+		panic(exprError{fmt.Errorf(`sqlgen: invalid expression %q: %w`, str, err)})
 	}
 	str = buf.String()
 	str = importPkgIfNeeded(pkg, str)
 	return str
 }
 
+// exprError is how an expression of the configuration which cannot be formatted
+// gets to [Generate].
+type exprError struct {
+	error
+}
+
+func recoverExprError(err *error) {
+	switch v := recover().(type) {
+	case nil:
+	case exprError:
+		*err = v.error
+	default:
+		panic(v)
+	}
+}
+
 func importPkgIfNeeded(pkg *Package, importPath string) string {
 	matches := pkgRegexp.FindStringSubmatch(importPath)
 	if len(matches) > 0 {
-- 
2.43.0


From b2d58f4508a45ba5346ea53eb376e864157c713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:47 +0000
Subject: [PATCH 29/42] fix: report an invalid configuration file instead of
 crashing

---
 cmd/sqlgen/cmd.go             | 10 ++++++----
 cmd/sqlgen/codegen/codegen.go |  5 ++++-
 cmd/sqlgen/codegen/config.go  | 24 ++++++++++++++++--------
 cmd/sqlgen/generate.go        |  7 ++++---
 cmd/sqlgen/init.go            |  7 ++++++-
 5 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/cmd/sqlgen/cmd.go b/cmd/sqlgen/cmd.go
index 1120145..1ed1b4d 100644
--- a/cmd/sqlgen/cmd.go
+++ b/cmd/sqlgen/cmd.go
@@ -28,16 +28,18 @@ var (
 		},
 		RunE: func(cmd *cobra.Command, args []string) error {
 			var (
-				cfg = codegen.DefaultConfig()
+				cfg *codegen.Config
 				err error
 			)
 
 			// If user passing config file, then we load from it.
 			if rootOpts.config != "" {
 				cfg, err = codegen.LoadConfigFrom(rootOpts.config)
-				if err != nil {
-					return err
-				}
+			} else {
+				cfg, err = codegen.LoadDefaultConfig()
+			}
+			if err != nil {
+				return err
 			}
 			return codegen.Generate(cfg)
 		},
diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 94cd283..980f86a 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -48,7 +48,10 @@ func Generate(c *Config) (err error) {
 		return err
 	}
 
-	cfg := DefaultConfig()
+	cfg, err := LoadDefaultConfig()
+	if err != nil {
+		return err
+	}
 	if c != nil {
 		cfg = cfg.Merge(c)
 	}
diff --git a/cmd/sqlgen/codegen/config.go b/cmd/sqlgen/codegen/config.go
index 4ac3c22..e2dbfd4 100644
--- a/cmd/sqlgen/codegen/config.go
+++ b/cmd/sqlgen/codegen/config.go
@@ -1,6 +1,7 @@
 package codegen
 
 import (
+	"fmt"
 	"maps"
 	"os"
 	"path/filepath"
@@ -268,18 +269,25 @@ func LoadConfigFrom(src string) (*Config, error) {
 }
 
 func DefaultConfig() *Config {
-	cfg := new(Config)
-	cfg.Init()
-	file, exists := findCfgInDir(fileutil.Getpwd())
-	if !exists {
-		return cfg
-	}
-	if err := decodeToFile(file, cfg); err != nil {
+	cfg, err := LoadDefaultConfig()
+	if err != nil {
 		panic(err)
 	}
 	return cfg
 }
 
+// LoadDefaultConfig loads the configuration file in the working directory,
+// if there is any.
+func LoadDefaultConfig() (*Config, error) {
+	file, exists := findCfgInDir(fileutil.Getpwd())
+	if !exists {
+		cfg := new(Config)
+		cfg.Init()
+		return cfg, nil
+	}
+	return LoadConfigFrom(file)
+}
+
 func decodeToFile(src string, cfg *Config) error {
 	f, err := os.Open(src)
 	if err != nil {
@@ -288,7 +296,7 @@ func decodeToFile(src string, cfg *Config) error {
 	defer f.Close()
 	dec := yaml.NewDecoder(f)
 	if err := dec.Decode(cfg); err != nil {
-		return err
+		return fmt.Errorf(`sqlgen: invalid configuration file %q: %w`, src, err)
 	}
 	return nil
 }
diff --git a/cmd/sqlgen/generate.go b/cmd/sqlgen/generate.go
index e77c417..f88532e 100644
--- a/cmd/sqlgen/generate.go
+++ b/cmd/sqlgen/generate.go
@@ -16,9 +16,10 @@ var (
 		Short: "Generate boilerplate code based on go struct",
 		Args:  cobra.ExactArgs(1),
 		RunE: func(cmd *cobra.Command, args []string) error {
-			var (
-				cfg = codegen.DefaultConfig()
-			)
+			cfg, err := codegen.LoadDefaultConfig()
+			if err != nil {
+				return err
+			}
 
 			// // Create new watcher.
 			// watcher, err := fsnotify.NewWatcher()
diff --git a/cmd/sqlgen/init.go b/cmd/sqlgen/init.go
index cac3ed2..b1c53d5 100644
--- a/cmd/sqlgen/init.go
+++ b/cmd/sqlgen/init.go
@@ -79,7 +79,12 @@ func runInitCommand(cmd *cobra.Command, args []string) error {
 		return noInterruptError(err)
 	}
 
-	cfg := codegen.DefaultConfig()
+	cfg, err := codegen.LoadDefaultConfig()
+	if err != nil {
+		// The existing configuration is unusable and about to be replaced
+		cfg = new(codegen.Config)
+		cfg.Init()
+	}
 	switch answer.SqlDriver {
 	case string(codegen.MySQL):
 		cfg.Driver = codegen.MySQL
-- 
2.43.0


From aa35c20fd819fac4e83e2e6cc44335cc1fd1c789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:37 +0000
Subject: [PATCH 30/42] fix: resolve every source, or report it

---
 cmd/sqlgen/codegen/codegen.go            | 61 +++++++++++++-----------
 cmd/sqlgen/internal/fileutil/fileutil.go | 23 +++------
 2 files changed, 39 insertions(+), 45 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 980f86a..a38240d 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -29,9 +29,8 @@ var (
 
 	// https://pkg.go.dev/cmd/go#hdr-Generate_Go_files_by_processing_source
 	path2Regex = strings.NewReplacer(
-		`.`, `\.`,
-		`*`, `.*`,
-		`\`, `[\\/]`,
+		`\*`, `.*`,
+		`\\`, `[\\/]`,
 		`/`, `[\\/]`,
 	)
 	nameRegex = regexp.MustCompile(`(?i)^[a-z]+[a-z0-9\_]*$`)
@@ -79,12 +78,10 @@ func Generate(c *Config) (err error) {
 			return fmt.Errorf("sqlgen: source directory %q is empty path", srcDir)
 		}
 
-		if srcDir == "." {
-			srcDir = fileutil.Getpwd()
-			// If the prefix is ".", mean it's refer to current directory
-		} else if srcDir[0] == '.' {
-			srcDir = fileutil.Getpwd() + srcDir[1:]
-		} else if srcDir[0] != '/' {
+		// A relative path refers to current directory
+		if filepath.IsAbs(srcDir) {
+			srcDir = filepath.Clean(srcDir)
+		} else {
 			srcDir = filepath.Join(fileutil.Getpwd(), srcDir)
 		}
 
@@ -100,11 +97,9 @@ func Generate(c *Config) (err error) {
 		// Wildcard: [examples/**, examples/testdata/**/*.go,  examples/testdata/**/*]
 		// File wildcard: [examples/testdata/*model.go, examples/testdata/*_model.go]
 		var (
-			rootDir    string
-			r                  = regexp.MustCompile(`(?i)((?:\/)([a-z][a-z0-9-_.]+\/)*)\w*\*\w*(?:\.go)`)
-			subMatches         = r.FindStringSubmatch(srcDir)
-			matcher    Matcher = new(EmptyMatcher)
-			dirs               = make([]string, 0)
+			rootDir string
+			matcher Matcher = new(EmptyMatcher)
+			dirs            = make([]string, 0)
 		)
 
 		if strings.Contains(srcDir, "**") {
@@ -112,11 +107,13 @@ func Generate(c *Config) (err error) {
 			rootDir = strings.TrimSuffix(strings.TrimSpace(paths[0]), "/")
 			suffix := `(?:[\\/]\w+\.\w+)`
 			if paths[1] != "" {
-				suffix = path2Regex.Replace(paths[1])
+				suffix = globToRegex(paths[1])
 			}
 			if err := filepath.WalkDir(rootDir, func(path string, d fs.DirEntry, err error) error {
-				// If the directory is not exists, the "d" will be nil
-				if d == nil || !d.IsDir() {
+				if err != nil {
+					return err
+				}
+				if !d.IsDir() {
 					// If it's not a folder, we skip!
 					return nil
 				}
@@ -125,19 +122,18 @@ func Generate(c *Config) (err error) {
 			}); err != nil {
 				return fmt.Errorf(`sqlgen: failed to walk schema %s: %w`, paths[0], err)
 			}
-			matcher = &RegexMatcher{regexp.MustCompile(path2Regex.Replace(rootDir) + `([\\/][a-z0-9_-]+)*` + suffix)}
-		} else if len(subMatches) > 0 {
-			rootDir = strings.TrimSuffix(subMatches[1], "/")
+			matcher = &RegexMatcher{regexp.MustCompile(`^` + globToRegex(rootDir) + `([\\/][^\\/]+)*` + suffix + `$`)}
+		} else if strings.Contains(srcDir, "*") {
+			rootDir = filepath.Dir(srcDir)
+			if _, err := os.Stat(rootDir); err != nil {
+				return fmt.Errorf(`sqlgen: failed to resolve source %q: %w`, sources[0], err)
+			}
 			dirs = append(dirs, "")
-			slog.Info("Submatch", "rootDir", rootDir, "dir", path2Regex.Replace(srcDir))
-			matcher = &RegexMatcher{regexp.MustCompile(path2Regex.Replace(srcDir))}
+			matcher = &RegexMatcher{regexp.MustCompile(`^` + globToRegex(srcDir) + `$`)}
 		} else {
 			fi, err := os.Stat(srcDir)
-			// If the file or folder not exists, we skip!
-			if os.IsNotExist(err) {
-				goto nextSrc
-			} else if err != nil {
-				return err
+			if err != nil {
+				return fmt.Errorf(`sqlgen: failed to resolve source %q: %w`, sources[0], err)
 			}
 
 			if fi.IsDir() {
@@ -157,7 +153,6 @@ func Generate(c *Config) (err error) {
 			return err
 		}
 
-	nextSrc:
 		sources = sources[1:]
 	}
 
@@ -198,6 +193,12 @@ func Generate(c *Config) (err error) {
 	return goModTidy()
 }
 
+// globToRegex returns the regular expression of a path where `*` stands for
+// any characters.
+func globToRegex(glob string) string {
+	return path2Regex.Replace(regexp.QuoteMeta(glob))
+}
+
 func parseGoPackage(
 	g *Generator,
 	rootDir string,
@@ -224,7 +225,9 @@ func parseGoPackage(
 		}
 
 		slog.Info("Process", "dir", dir)
-		if fileutil.IsDirEmptyFiles(dir, g.config.Exec.Filename) {
+		if empty, err := fileutil.IsDirEmptyFiles(dir, g.config.Exec.Filename); err != nil {
+			return err
+		} else if empty {
 			slog.Info("Folder is empty, so not processing")
 			dirs = dirs[1:]
 			continue
diff --git a/cmd/sqlgen/internal/fileutil/fileutil.go b/cmd/sqlgen/internal/fileutil/fileutil.go
index 630d46a..9a3ec13 100644
--- a/cmd/sqlgen/internal/fileutil/fileutil.go
+++ b/cmd/sqlgen/internal/fileutil/fileutil.go
@@ -67,21 +67,12 @@ func CurDir() string {
 	return filepath.Dir(path)
 }
 
-func IsDirEmptyFiles(dir string, excluded ...string) bool {
-	var found bool
-	// var found = errors.New("file is found")
-	if err := filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
-		if d == nil || d.IsDir() ||
-			dir != filepath.Dir(path) ||
-			lo.Contains(excluded, filepath.Base(path)) ||
-			filepath.Ext(path) != ".go" {
-			return nil
-		}
-		found = true
-		return filepath.SkipAll
-	}); err != nil {
-		return false
-	} else {
-		return !found
+func IsDirEmptyFiles(dir string, excluded ...string) (bool, error) {
+	entries, err := os.ReadDir(dir)
+	if err != nil {
+		return false, err
 	}
+	return !lo.ContainsBy(entries, func(d fs.DirEntry) bool {
+		return !d.IsDir() && filepath.Ext(d.Name()) == ".go" && !lo.Contains(excluded, d.Name())
+	}), nil
 }
-- 
2.43.0


From 958eeef070313bff5e06b1a4942028def07db8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:45 +0000
Subject: [PATCH 31/42] fix: read every struct of a package, or report why not

---
 cmd/sqlgen/codegen/codegen.go            |  4 +-
 cmd/sqlgen/internal/compiler/compiler.go |  2 +
 cmd/sqlgen/internal/compiler/parser.go   | 94 +++++++++++++++++++-----
 3 files changed, 82 insertions(+), 18 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index a38240d..0cdc29d 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -109,7 +109,7 @@ func Generate(c *Config) (err error) {
 			if paths[1] != "" {
 				suffix = globToRegex(paths[1])
 			}
-			if err := filepath.WalkDir(rootDir, func(path string, d fs.DirEntry, err error) error {
+			if err := filepath.WalkDir(rootDir+"/", func(path string, d fs.DirEntry, err error) error {
 				if err != nil {
 					return err
 				}
@@ -250,6 +250,8 @@ func parseGoPackage(
 				return err
 			}
 			goto nextDir
+		} else if errors.Is(err, compiler.ErrExcluded) {
+			goto nextDir
 		} else if err != nil {
 			return err
 		}
diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index a3e8756..fbe7c80 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -18,6 +18,8 @@ const GeneratedHeader = "// Code generated by sqlgen,"
 
 var (
 	ErrSkip = errors.New(`compiler: skip code generation`)
+	// ErrExcluded means every source is excluded by its build constraint
+	ErrExcluded = errors.New(`compiler: no source for this platform`)
 
 	nameRegex     = regexp.MustCompile(`(?i)^[a-z]+[a-z0-9\_]*$`)
 	typeOfTable   = reflect.TypeOf(sequel.TableName{})
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 57e0a15..2469244 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -7,15 +7,18 @@ import (
 	"go/types"
 	"log"
 	"os"
+	"path/filepath"
 	"reflect"
 	"regexp"
 	"sort"
 	"strings"
 
+	"github.com/samber/lo"
 	"golang.org/x/tools/go/packages"
 )
 
 const pkgMode = packages.NeedName |
+	packages.NeedFiles |
 	packages.NeedImports |
 	packages.NeedTypes |
 	packages.NeedSyntax |
@@ -50,6 +53,9 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 	}
 
 	pkg := pkgs[0]
+	if err := sourceError(dir, pkg, cfg); err != nil {
+		return nil, err
+	}
 	structCaches := make([]structCache, 0)
 
 	// Loop thru every go files
@@ -67,14 +73,10 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		// }
 
 		// ast.Print(pkg.Fset, f)
-		ast.Inspect(file, func(node ast.Node) bool {
-			if node == nil {
-				return true
-			}
-
-			genDecl := assertAsPtr[ast.GenDecl](node)
+		for _, decl := range file.Decls {
+			genDecl := assertAsPtr[ast.GenDecl](decl)
 			if genDecl == nil || genDecl.Tok != token.TYPE {
-				return true
+				continue
 			}
 
 			for _, spec := range genDecl.Specs {
@@ -88,6 +90,10 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				if typeSpec.Assign > 0 {
 					continue
 				}
+				// Generic type is not supported
+				if typeSpec.TypeParams != nil {
+					continue
+				}
 
 				filename := pkg.Fset.Position(typeSpec.Name.NamePos).Filename
 				if !cfg.Matcher.Match(filename) {
@@ -112,9 +118,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: genDecl.Doc, t: t, pkg: pkg})
 
 				case *ast.SelectorExpr:
+					sel := pkg.TypesInfo.ObjectOf(t.Sel)
+					if sel == nil || sel.Pkg() == nil || pkg.Imports[sel.Pkg().Path()] == nil {
+						return nil, fmt.Errorf(`sqlgen: unable to resolve type %q of %q in directory %q`, types.ExprString(t), typeSpec.Name, dir)
+					}
 					var (
-						pkgPath   = pkg.TypesInfo.ObjectOf(t.Sel).Pkg()
-						importPkg = pkg.Imports[pkgPath.Path()]
+						importPkg = pkg.Imports[sel.Pkg().Path()]
 						obj       *ast.Object
 					)
 
@@ -139,12 +148,9 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 						structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: genDecl.Doc, t: v, pkg: importPkg})
 					}
 
-				default:
-					return true
 				}
 			}
-			return true
-		})
+		}
 	}
 
 	// If no files matched the pattern, skip it
@@ -222,6 +228,9 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 						}
 						// After lookup still cannot find the type, then skip
 						if obj == nil {
+							if hasInvalidType(f.pkg.TypesInfo.TypeOf(fi.Type)) {
+								return nil, fmt.Errorf(`sqlgen: unable to resolve type %q in struct %q in directory %q`, types.ExprString(fi.Type), s.name, dir)
+							}
 							continue
 						}
 
@@ -253,11 +262,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 
 					// Embedded with imported struct
 					case *ast.SelectorExpr:
+						sel := f.pkg.TypesInfo.Uses[vi.Sel]
+						if sel == nil || sel.Pkg() == nil || f.pkg.Imports[sel.Pkg().Path()] == nil {
+							return nil, fmt.Errorf(`sqlgen: unable to resolve type %q in struct %q in directory %q`, types.ExprString(fi.Type), s.name, dir)
+						}
 						var (
-							t         = f.pkg.TypesInfo.TypeOf(vi)
-							pkgPath   = t.String()
-							idx       = strings.LastIndex(pkgPath, ".")
-							importPkg = f.pkg.Imports[pkgPath[:idx]]
+							importPkg = f.pkg.Imports[sel.Pkg().Path()]
 							obj       *ast.Object
 						)
 
@@ -428,6 +438,10 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				continue
 			}
 
+			if hasInvalidType(f.t) {
+				return nil, fmt.Errorf(`sqlgen: unable to resolve the type of field %q in struct %q in directory %q`, f.name, s.name, dir)
+			}
+
 			if _, ok := nameMap[name]; ok {
 				return nil, fmt.Errorf("sqlgen: struct %q has duplicate column name %q in directory %q", s.name, name, dir)
 			}
@@ -490,6 +504,52 @@ func generatedBySqlgen(pkgs []*packages.Package) func(types.Object) bool {
 	}
 }
 
+// sourceError returns why the sources of the package could not be read. The
+// other files and type errors are none of our business, because the sources may
+// rely on code which is yet to be generated.
+func sourceError(dir string, pkg *packages.Package, cfg *Config) error {
+	// Nothing to read, or everything is for another platform
+	if len(pkg.GoFiles) == 0 {
+		if lo.EveryBy(pkg.IgnoredFiles, func(file string) bool { return file == cfg.Exclude }) {
+			return ErrSkip
+		}
+		return ErrExcluded
+	}
+	for _, err := range pkg.Errors {
+		if err.Kind == packages.TypeError {
+			continue
+		}
+		if file, _, ok := strings.Cut(err.Pos, ":"); ok {
+			if !filepath.IsAbs(file) {
+				file = filepath.Join(dir, file)
+			}
+			if !cfg.Matcher.Match(file) {
+				continue
+			}
+		}
+		return fmt.Errorf(`sqlgen: failed to parse directory %q: %w`, dir, err)
+	}
+	return nil
+}
+
+// hasInvalidType reports whether the type, or the type it is made of, is unknown.
+func hasInvalidType(t types.Type) bool {
+	switch v := types.Unalias(t).(type) {
+	case *types.Basic:
+		return v.Kind() == types.Invalid
+	case *types.Pointer:
+		return hasInvalidType(v.Elem())
+	case *types.Slice:
+		return hasInvalidType(v.Elem())
+	case *types.Array:
+		return hasInvalidType(v.Elem())
+	case *types.Map:
+		return hasInvalidType(v.Key()) || hasInvalidType(v.Elem())
+	default:
+		return false
+	}
+}
+
 // This is to count the underlying pointer of a type
 func ptrCount(t types.Type) int {
 	var total int
-- 
2.43.0


From 67e30a93fbe12cf9e81450f0d65d928823d8b818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:45 +0000
Subject: [PATCH 32/42] fix: keep the column order of deeply embedded structs

---
 cmd/sqlgen/internal/compiler/parser.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 2469244..39bd800 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -240,7 +240,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							ft := &structField{
 								name:  types.ExprString(vi),
 								t:     f.pkg.TypesInfo.TypeOf(fi.Type),
-								index: append(f.idx, i),
+								index: appendIndex(f.idx, i),
 								// paths:    append(f.paths, path),
 								exported: vi.IsExported(),
 								embedded: true,
@@ -250,7 +250,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							structFields = append(structFields, ft)
 
 							q = append(q, typeQueue{
-								idx:  append(f.idx, i),
+								idx:  appendIndex(f.idx, i),
 								prev: ft,
 								t:    t.Type.(*ast.StructType),
 								pkg:  f.pkg,
@@ -293,7 +293,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							ft := &structField{
 								name:     types.ExprString(vi.Sel),
 								t:        f.pkg.TypesInfo.TypeOf(fi.Type),
-								index:    append(f.idx, i),
+								index:    appendIndex(f.idx, i),
 								exported: vi.Sel.IsExported(),
 								embedded: true,
 								parent:   f.prev,
@@ -301,7 +301,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							}
 
 							q = append(q, typeQueue{
-								idx:  append(f.idx, i),
+								idx:  appendIndex(f.idx, i),
 								t:    st,
 								prev: ft,
 								pkg:  importPkg,
@@ -340,7 +340,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					structFields = append(structFields, &structField{
 						name:     types.ExprString(n),
 						t:        f.pkg.TypesInfo.TypeOf(fi.Type),
-						index:    append(f.idx, i+j),
+						index:    appendIndex(f.idx, i+j),
 						exported: n.IsExported(),
 						parent:   f.prev,
 						tag:      tag,
@@ -550,6 +550,11 @@ func hasInvalidType(t types.Type) bool {
 	}
 }
 
+// appendIndex returns a new slice, because the siblings share the same parent.
+func appendIndex(idx []int, i int) []int {
+	return append(idx[:len(idx):len(idx)], i)
+}
+
 // This is to count the underlying pointer of a type
 func ptrCount(t types.Type) int {
 	var total int
-- 
2.43.0


From 2530f1850050aaa5e9dcd190026626ede7ddf045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:45 +0000
Subject: [PATCH 33/42] fix: honour the annotation of every struct

---
 cmd/sqlgen/internal/compiler/parser.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 39bd800..98333ce 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -95,6 +95,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					continue
 				}
 
+				// The annotation is either on the type or on the declaration
+				doc := genDecl.Doc
+				if annotationRegexp.MatchString(typeSpec.Doc.Text()) {
+					doc = typeSpec.Doc
+				}
+
 				filename := pkg.Fset.Position(typeSpec.Name.NamePos).Filename
 				if !cfg.Matcher.Match(filename) {
 					continue
@@ -115,7 +121,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				// ```
 				switch t := typeSpec.Type.(type) {
 				case *ast.StructType:
-					structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: genDecl.Doc, t: t, pkg: pkg})
+					structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: doc, t: t, pkg: pkg})
 
 				case *ast.SelectorExpr:
 					sel := pkg.TypesInfo.ObjectOf(t.Sel)
@@ -145,7 +151,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					}
 
 					if v := assertAsPtr[ast.StructType](decl.Type); v != nil {
-						structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: genDecl.Doc, t: v, pkg: importPkg})
+						structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: doc, t: v, pkg: importPkg})
 					}
 
 				}
@@ -377,12 +383,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		pos := 0
 
 		if s.doc != nil {
-			comment := f.doc.Text()
+			comment := s.doc.Text()
 			if annotationRegexp.MatchString(comment) {
 				annotations := annotationRegexp.FindStringSubmatch(comment)
 				flags := strings.Split(annotations[1], ",")
 				for len(flags) > 0 {
-					switch flags[0] {
+					switch strings.TrimSpace(flags[0]) {
 					case "readonly":
 						table.Readonly = true
 					case "ignore":
-- 
2.43.0


From b07b3adaa2cb9a5477f5cef51e97833076eaea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:15 +0000
Subject: [PATCH 34/42] fix: never damage the existing configuration file when
 init fails

---
 cmd/sqlgen/codegen/init.go               | 25 +++++++++++++++++-------
 cmd/sqlgen/init.go                       |  6 +++++-
 cmd/sqlgen/internal/fileutil/fileutil.go | 23 ++++++++++++++++++++--
 3 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/cmd/sqlgen/codegen/init.go b/cmd/sqlgen/codegen/init.go
index 3c9ddd2..b60da8e 100644
--- a/cmd/sqlgen/codegen/init.go
+++ b/cmd/sqlgen/codegen/init.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"go/types"
 	"io"
+	"io/fs"
 	"log/slog"
 	"os"
 	"path/filepath"
@@ -16,14 +17,19 @@ import (
 	"golang.org/x/tools/imports"
 )
 
+// Init writes the configuration file, replacing the one which exists already
 func Init(cfg *Config) error {
-	f, err := os.OpenFile(DefaultConfigFile, os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.ModePerm)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
+	return writeConfig(cfg, fileutil.WriteFile)
+}
 
-	if err := yaml.NewEncoder(f, yaml.WithComment(yaml.CommentMap{
+// InitNew writes the configuration file, but fails if it exists already
+func InitNew(cfg *Config) error {
+	return writeConfig(cfg, fileutil.CreateFile)
+}
+
+func writeConfig(cfg *Config, write func(string, []byte, fs.FileMode) error) error {
+	buf := new(bytes.Buffer)
+	if err := yaml.NewEncoder(buf, yaml.WithComment(yaml.CommentMap{
 		"$.src":               []*yaml.Comment{yaml.HeadComment(" Where are all the model files located? Globs are supported eg: src/**/*.go")},
 		"$.driver":            []*yaml.Comment{yaml.HeadComment(` Optional: possibly values : "mysql", "postgres" or "sqlite". Default value is "mysql".`)},
 		"$.naming_convention": []*yaml.Comment{yaml.HeadComment(` Optional: possibly values : "snake_case", "camelCase" or "PascalCase". Default value is "snake_case".`)},
@@ -41,7 +47,12 @@ func Init(cfg *Config) error {
 		return err
 	}
 
-	return f.Close()
+	// Replace the target when the configuration file is a symbolic link
+	fileDest := DefaultConfigFile
+	if target, err := filepath.EvalSymlinks(fileDest); err == nil {
+		fileDest = target
+	}
+	return write(fileDest, buf.Bytes(), os.ModePerm)
 }
 
 func renderTemplate(
diff --git a/cmd/sqlgen/init.go b/cmd/sqlgen/init.go
index b1c53d5..387f657 100644
--- a/cmd/sqlgen/init.go
+++ b/cmd/sqlgen/init.go
@@ -122,7 +122,11 @@ func runInitCommand(cmd *cobra.Command, args []string) error {
 	}
 
 	cmd.Println(`Creating ` + filename)
-	return codegen.Init(cfg)
+	if initOpts.force {
+		return codegen.Init(cfg)
+	}
+	// Someone else may have created it in the meantime
+	return codegen.InitNew(cfg)
 }
 
 func init() {
diff --git a/cmd/sqlgen/internal/fileutil/fileutil.go b/cmd/sqlgen/internal/fileutil/fileutil.go
index 9a3ec13..5d106ff 100644
--- a/cmd/sqlgen/internal/fileutil/fileutil.go
+++ b/cmd/sqlgen/internal/fileutil/fileutil.go
@@ -25,7 +25,26 @@ func IsFileExists(path string) bool {
 // temporary file beside it, which takes over the name once it is complete. The
 // file is either as it was before or holds all of the data, also when the
 // process is interrupted or a write fails.
-func WriteFile(filename string, data []byte, perm fs.FileMode) (err error) {
+func WriteFile(filename string, data []byte, perm fs.FileMode) error {
+	return writeFile(filename, data, perm, os.Rename)
+}
+
+// CreateFile is like WriteFile, but fails if the file exists already.
+func CreateFile(filename string, data []byte, perm fs.FileMode) error {
+	return writeFile(filename, data, perm, func(tempname, filename string) error {
+		err := os.Link(tempname, filename)
+		if err == nil {
+			return os.Remove(tempname)
+		}
+		if _, lerr := os.Lstat(filename); !errors.Is(lerr, fs.ErrNotExist) {
+			return err
+		}
+		// The file system has no hard links
+		return os.Rename(tempname, filename)
+	})
+}
+
+func writeFile(filename string, data []byte, perm fs.FileMode, move func(tempname, filename string) error) (err error) {
 	f, err := createTemp(filename, perm)
 	if err != nil {
 		return err
@@ -45,7 +64,7 @@ func WriteFile(filename string, data []byte, perm fs.FileMode) (err error) {
 	if err != nil {
 		return err
 	}
-	return os.Rename(f.Name(), filename)
+	return move(f.Name(), filename)
 }
 
 // createTemp creates a new file beside the given one. Its name starts with a
-- 
2.43.0


From 92b8bd30e01d774f70ed570c017f5b63fd93a6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:45 +0000
Subject: [PATCH 35/42] fix: read the float32 values that the MySQL driver
 returns

---
 sequel/encoding/float.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/sequel/encoding/float.go b/sequel/encoding/float.go
index 857324d..768dd4b 100644
--- a/sequel/encoding/float.go
+++ b/sequel/encoding/float.go
@@ -51,6 +51,19 @@ func (f *float32Scanner[T, Addr]) Scan(v any) error {
 		default:
 			panic("unreachable")
 		}
+	case float32:
+		// What the MySQL driver returns for a FLOAT column
+		val := T(vi)
+		switch any(f.addr).(type) {
+		case **T:
+			*(**T)(unsafe.Pointer(f.addr)) = &val
+			return nil
+		case *T:
+			*(*T)(unsafe.Pointer(f.addr)) = val
+			return nil
+		default:
+			panic("unreachable")
+		}
 	case float64:
 		val := T(vi)
 		if math.IsInf(float64(val), 0) && !math.IsInf(vi, 0) {
@@ -141,6 +154,23 @@ func (f *float64Scanner[T, Addr]) Scan(v any) error {
 		default:
 			panic("unreachable")
 		}
+	case float32:
+		// The shortest decimal is the value that was stored, like database/sql does
+		f64, err := strconv.ParseFloat(strconv.FormatFloat(float64(vi), 'g', -1, 32), 64)
+		if err != nil {
+			return err
+		}
+		val := T(f64)
+		switch any(f.addr).(type) {
+		case **T:
+			*(**T)(unsafe.Pointer(f.addr)) = &val
+			return nil
+		case *T:
+			*(*T)(unsafe.Pointer(f.addr)) = val
+			return nil
+		default:
+			panic("unreachable")
+		}
 	case float64:
 		val := T(vi)
 		switch any(f.addr).(type) {
-- 
2.43.0


From 83247f581c1002538fb71729f33a0c01d2b79d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:26 +0000
Subject: [PATCH 36/42] fix: generate code that compiles for named and
 pointed-to slices and arrays

---
 cmd/sqlgen/codegen/expr.go     | 12 +++++------
 cmd/sqlgen/codegen/generate.go |  9 ++++++++-
 cmd/sqlgen/codegen/tool.go     | 15 ++++++++++++++
 sequel/encoding/nullable.go    | 37 ++++++++++++++++++++++++++++++++++
 4 files changed, 65 insertions(+), 8 deletions(-)
 create mode 100644 sequel/encoding/nullable.go

diff --git a/cmd/sqlgen/codegen/expr.go b/cmd/sqlgen/codegen/expr.go
index da2510d..e3d98f0 100644
--- a/cmd/sqlgen/codegen/expr.go
+++ b/cmd/sqlgen/codegen/expr.go
@@ -55,16 +55,14 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 			return params.GoPath
 		},
 		"elemType": func() string {
-			switch t := params.Type.(type) {
+			t, _ := underlyingType(params.Type)
+			switch vt := t.Underlying().(type) {
 			case *types.Array:
-				return importPkgIfNeeded(pkg, t.Elem().String())
+				t = vt.Elem()
 			case *types.Slice:
-				return importPkgIfNeeded(pkg, t.Elem().String())
-			case *types.Pointer:
-				return importPkgIfNeeded(pkg, t.Elem().String())
-			default:
-				return importPkgIfNeeded(pkg, params.Type.String())
+				t = vt.Elem()
 			}
+			return importPkgIfNeeded(pkg, t.String())
 		},
 		"addrOfGoPath": func() string {
 			if params.IsPtr {
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index d2b3533..1020d7c 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -721,6 +721,10 @@ func (g *Generator) valuer(importPkgs *Package, goPath string, t types.Type) str
 		}
 		return goPath
 	} else if columnType, ok := g.columnDataType(t); ok && columnType.Valuer != "" {
+		if strings.HasPrefix(goPath, "*") && strings.Contains(columnType.Valuer, "{{goPath}}[") {
+			// The array needs to be dereferenced before it's sliced
+			goPath = "(" + goPath + ")"
+		}
 		return Expr(columnType.Valuer).Format(importPkgs, ExprParams{GoPath: goPath, IsPtr: isPtr, Type: t, Len: arraySize(t)})
 	} else if isImplemented(utype, textMarshaler) {
 		return Expr(goutil.GenericFunc(encoding.TextValue[time.Time], "{{goPath}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
@@ -749,10 +753,13 @@ func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) st
 			return Expr(goutil.GenericFunc(encoding.PtrScanner[sql.NullString], "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 		}
 		return goPath
+	} else if columnType, ok := g.columnDataType(ptr.Elem()); isPtr && ok && isListType(ptr.Elem()) && !strings.Contains(columnType.Scanner, "{{addr}}") {
+		scanner := Expr(columnType.Scanner).Format(importPkgs, ExprParams{GoPath: "val", Type: t, IsPtr: isPtr, Len: arraySize(t)})
+		return Expr(goutil.GenericFunc(encoding.NullableScanner[string], "{{addr}}", "func(val *{{baseType}}) any { return "+scanner+" }")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 	} else if columnType, ok := g.columnDataType(t); ok && columnType.Scanner != "" {
 		return Expr(columnType.Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr, Len: arraySize(t)})
 	} else if isImplemented(ptr, textUnmarshaler) {
-		return Expr(goutil.GenericFuncName(encoding.TextScanner[time.Time, *time.Time, *time.Time], "{{elemType}}", "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
+		return Expr(goutil.GenericFuncName(encoding.TextScanner[time.Time, *time.Time, *time.Time], "{{baseType}}", "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 	}
 	return Expr(g.defaultColumnTypes["*"].Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 }
diff --git a/cmd/sqlgen/codegen/tool.go b/cmd/sqlgen/codegen/tool.go
index 31a07e0..7eeb1e4 100644
--- a/cmd/sqlgen/codegen/tool.go
+++ b/cmd/sqlgen/codegen/tool.go
@@ -88,6 +88,12 @@ func arraySize(t types.Type) int64 {
 		switch vt := t.(type) {
 		case *types.Pointer:
 			t = vt.Elem()
+		case *types.Named:
+			arr, ok := vt.Underlying().(*types.Array)
+			if !ok {
+				return -1
+			}
+			t = arr
 		case *types.Array:
 			return vt.Len()
 		default:
@@ -97,6 +103,15 @@ func arraySize(t types.Type) int64 {
 	return -1
 }
 
+func isListType(t types.Type) bool {
+	switch t.Underlying().(type) {
+	case *types.Slice, *types.Array:
+		return true
+	default:
+		return false
+	}
+}
+
 func isImplemented(t types.Type, iv *types.Interface) bool {
 	method, wrongType := types.MissingMethod(t, iv, true)
 	return method == nil && !wrongType
diff --git a/sequel/encoding/nullable.go b/sequel/encoding/nullable.go
new file mode 100644
index 0000000..65fd9c0
--- /dev/null
+++ b/sequel/encoding/nullable.go
@@ -0,0 +1,37 @@
+package encoding
+
+import "database/sql"
+
+// NullableScanner scans into the pointer of a value that itself has no notion of
+// null: the pointer is nil when it is null, or else it points to a new value which
+// is scanned using the scanner.
+func NullableScanner[T any](addr **T, scanner func(*T) any) sql.Scanner {
+	return &nullableScanner[T]{addr: addr, scanner: scanner}
+}
+
+type nullableScanner[T any] struct {
+	addr    **T
+	scanner func(*T) any
+}
+
+// Scan implements the sql.Scanner interface.
+func (n *nullableScanner[T]) Scan(v any) error {
+	if v == nil {
+		*n.addr = nil
+		return nil
+	}
+	val := new(T)
+	if s, ok := n.scanner(val).(sql.Scanner); ok {
+		if err := s.Scan(v); err != nil {
+			return err
+		}
+	} else {
+		var null sql.Null[T]
+		if err := null.Scan(v); err != nil {
+			return err
+		}
+		*val = null.V
+	}
+	*n.addr = val
+	return nil
+}
-- 
2.43.0


From d6d97683876878a8f8be4eba698eb708d6a188a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:26 +0000
Subject: [PATCH 37/42] fix: read back runes and, on Postgres, fixed size
 string arrays

---
 .../codegen/dialect/mysql/column_type.go      |  2 +-
 .../codegen/dialect/postgres/column_type.go   |  9 +--
 .../codegen/dialect/sqlite/column_type.go     |  2 +-
 sequel/driver/postgres/pgtype/fixed_array.go  | 30 +++++++++
 sequel/encoding/rune.go                       | 63 +++++++++++++++++++
 5 files changed, 97 insertions(+), 9 deletions(-)
 create mode 100644 sequel/driver/postgres/pgtype/fixed_array.go
 create mode 100644 sequel/encoding/rune.go

diff --git a/cmd/sqlgen/codegen/dialect/mysql/column_type.go b/cmd/sqlgen/codegen/dialect/mysql/column_type.go
index b188fb9..455071c 100644
--- a/cmd/sqlgen/codegen/dialect/mysql/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/mysql/column_type.go
@@ -18,7 +18,7 @@ func (s *mysqlDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"rune": {
 			DataType: s.columnDataType("CHAR(1)"),
 			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.RuneScanner[rune, *rune], "{{elemType}}", "{{addr}}"),
 		},
 		"byte": {
 			DataType: s.columnDataType("CHAR(1)"),
diff --git a/cmd/sqlgen/codegen/dialect/postgres/column_type.go b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
index 49ab708..2576ce0 100644
--- a/cmd/sqlgen/codegen/dialect/postgres/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
@@ -19,7 +19,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"rune": {
 			DataType: s.columnDataType("char(1)"),
 			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.RuneScanner[rune, *rune], "{{elemType}}", "{{addr}}"),
 		},
 		"byte": {
 			DataType: s.columnDataType("char(1)"),
@@ -134,7 +134,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"[...]string": {
 			DataType: s.columnDataType("text[{{len}}]"),
 			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]({{goPath}}[:])",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]({{goPath}}[:])",
+			Scanner:  "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.FixedStringArray({{goPath}}[:])",
 		},
 		"[...]bool": {
 			DataType: s.columnDataType("bool[{{len}}]"),
@@ -146,11 +146,6 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]({{goPath}})",
 			Scanner:  "(*" + goutil.GetTypeName(pgtype.StringArray[string]{}) + "[{{elemType}}])({{addrOfGoPath}})",
 		},
-		"[]rune": {
-			DataType: s.columnDataType("text"),
-			Valuer:   "string({{goPath}}[:])",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/types.FixedSizeRunes({{goPath}})",
-		},
 		"[]byte": {
 			DataType: s.columnDataType("blob"),
 			Valuer:   "{{goPath}}",
diff --git a/cmd/sqlgen/codegen/dialect/sqlite/column_type.go b/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
index fa29e97..6817199 100644
--- a/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
@@ -18,7 +18,7 @@ func (s *sqliteDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"rune": {
 			DataType: s.columnDataType("TEXT"),
 			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.RuneScanner[rune, *rune], "{{elemType}}", "{{addr}}"),
 		},
 		"byte": {
 			DataType: s.columnDataType("BLOB"),
diff --git a/sequel/driver/postgres/pgtype/fixed_array.go b/sequel/driver/postgres/pgtype/fixed_array.go
new file mode 100644
index 0000000..7822280
--- /dev/null
+++ b/sequel/driver/postgres/pgtype/fixed_array.go
@@ -0,0 +1,30 @@
+package pgtype
+
+import (
+	"database/sql"
+	"fmt"
+)
+
+// FixedStringArray scans a one-dimensional array of the PostgreSQL character types
+// into the slice of a Go array.
+func FixedStringArray[T ~string](v []T) sql.Scanner {
+	return fixedStringArray[T]{v: v}
+}
+
+type fixedStringArray[T ~string] struct {
+	v []T
+}
+
+// Scan implements the sql.Scanner interface.
+func (a fixedStringArray[T]) Scan(src any) error {
+	var arr StringArray[T]
+	if err := arr.Scan(src); err != nil {
+		return err
+	}
+	if len(arr) > len(a.v) {
+		return fmt.Errorf("pgtype: array overflow, should be %d, but it is %d", len(a.v), len(arr))
+	}
+	clear(a.v)
+	copy(a.v, arr)
+	return nil
+}
diff --git a/sequel/encoding/rune.go b/sequel/encoding/rune.go
new file mode 100644
index 0000000..644d8ff
--- /dev/null
+++ b/sequel/encoding/rune.go
@@ -0,0 +1,63 @@
+package encoding
+
+import (
+	"database/sql"
+	"fmt"
+	"unicode/utf8"
+	"unsafe"
+)
+
+// RuneScanner scans a single character.
+func RuneScanner[T ~rune, Addr addrOrPtr[T]](addr Addr) sql.Scanner {
+	return &runeScanner[T, Addr]{addr: addr}
+}
+
+type runeScanner[T ~rune, Addr addrOrPtr[T]] struct {
+	addr Addr
+}
+
+// Scan implements the sql.Scanner interface.
+func (r *runeScanner[T, Addr]) Scan(v any) error {
+	var val *T
+	switch vi := v.(type) {
+	case nil:
+	case string:
+		c, err := parseRune[T](vi)
+		if err != nil {
+			return err
+		}
+		val = &c
+	case []byte:
+		c, err := parseRune[T](string(vi))
+		if err != nil {
+			return err
+		}
+		val = &c
+	default:
+		return fmt.Errorf(`sequel/encoding: unable to scan %T to ~rune`, vi)
+	}
+	switch any(r.addr).(type) {
+	case **T:
+		*(**T)(unsafe.Pointer(r.addr)) = val
+	case *T:
+		if val == nil {
+			val = new(T)
+		}
+		*(*T)(unsafe.Pointer(r.addr)) = *val
+	default:
+		panic("unreachable")
+	}
+	return nil
+}
+
+func parseRune[T ~rune](str string) (T, error) {
+	if str == "" {
+		// Some databases trim the trailing space of a CHAR column
+		return 0, nil
+	}
+	r, size := utf8.DecodeRuneInString(str)
+	if size != len(str) {
+		return 0, fmt.Errorf(`sequel/encoding: %q is more than a character`, str)
+	}
+	return T(r), nil
+}
-- 
2.43.0


From 7c54c02872f3b44e0b39abdccc463ca59256b29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 38/42] fix: declare every import of the db code instead of
 searching for them

The imports of db.go were found by a search which depends on the go command
and on the files around it: with a failing go command, the file was written
without some of them and the run succeeded.
---
 cmd/sqlgen/codegen/init.go             |  3 +-
 cmd/sqlgen/codegen/package.go          | 40 +++++++++++++++++++++++++-
 cmd/sqlgen/codegen/templates/db.go.tpl |  4 +++
 3 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/cmd/sqlgen/codegen/init.go b/cmd/sqlgen/codegen/init.go
index b60da8e..dfc2db1 100644
--- a/cmd/sqlgen/codegen/init.go
+++ b/cmd/sqlgen/codegen/init.go
@@ -14,7 +14,6 @@ import (
 
 	"github.com/goccy/go-yaml"
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/fileutil"
-	"golang.org/x/tools/imports"
 )
 
 // Init writes the configuration file, replacing the one which exists already
@@ -115,7 +114,7 @@ func renderTemplate(
 	// if err != nil {
 	// 	return err
 	// }
-	formatted, err := imports.Process(fileDest, w.Bytes(), &imports.Options{Comments: true})
+	formatted, err := formatSource(w.Bytes())
 	if err != nil {
 		return err
 	}
diff --git a/cmd/sqlgen/codegen/package.go b/cmd/sqlgen/codegen/package.go
index cf312f3..a4d4f03 100644
--- a/cmd/sqlgen/codegen/package.go
+++ b/cmd/sqlgen/codegen/package.go
@@ -1,11 +1,18 @@
 package codegen
 
 import (
+	"bytes"
+	"fmt"
+	"go/parser"
+	"go/printer"
+	"go/token"
 	"go/types"
 	"strconv"
 
 	"golang.org/x/exp/slices"
+	"golang.org/x/tools/go/ast/astutil"
 	"golang.org/x/tools/go/packages"
+	"golang.org/x/tools/imports"
 )
 
 type Package struct {
@@ -38,7 +45,8 @@ func (p *Package) Import(pkg *types.Package) (*types.Package, bool) {
 		Mode: packages.NeedName,
 	}, pkg.Path())
 	if err != nil {
-		return pkg, false
+		// Without its name, the package cannot be imported
+		panic(exprError{fmt.Errorf(`sqlgen: failed to load package %q: %w`, pkg.Path(), err)})
 	}
 
 	// If the import path is this package, skip to import
@@ -65,3 +73,33 @@ func (p *Package) newAliasIfExists(pkg *types.Package) string {
 	}
 	return newPkgName
 }
+
+// formatSource formats the source of a Go file and drops the imports which it
+// does not use. It never adds an import: what it would find depends on the
+// surrounding files and on whether the go command works.
+func formatSource(src []byte) ([]byte, error) {
+	fset := token.NewFileSet()
+	file, err := parser.ParseFile(fset, "", src, parser.ParseComments)
+	if err != nil {
+		return nil, err
+	}
+	for _, spec := range slices.Clone(file.Imports) {
+		path, err := strconv.Unquote(spec.Path.Value)
+		if err != nil {
+			return nil, err
+		}
+		if astutil.UsesImport(file, path) {
+			continue
+		}
+		name := ""
+		if spec.Name != nil {
+			name = spec.Name.Name
+		}
+		astutil.DeleteNamedImport(fset, file, name, path)
+	}
+	w := new(bytes.Buffer)
+	if err := printer.Fprint(w, fset, file); err != nil {
+		return nil, err
+	}
+	return imports.Process("", w.Bytes(), &imports.Options{Comments: true, FormatOnly: true})
+}
diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index c7f0e18..abd5799 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1,3 +1,7 @@
+{{- reserveImport "iter" }}
+{{- reserveImport "reflect" }}
+{{- reserveImport "sort" }}
+{{- reserveImport "time" }}
 {{- reserveImport "context" }}
 {{- reserveImport "database/sql" }}
 {{- reserveImport "database/sql/driver" }}
-- 
2.43.0


From 23e9c3db52e04e1fa3d03b974ffdc1ff86b44ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:59 +0000
Subject: [PATCH 39/42] fix: generate one file for a folder which several
 sources have in common

---
 cmd/sqlgen/codegen/codegen.go      | 18 ++++++++++++++++--
 cmd/sqlgen/codegen/path_matcher.go | 12 ++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 0cdc29d..1244785 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -68,6 +68,9 @@ func Generate(c *Config) (err error) {
 	var (
 		srcDir  string
 		sources = make([]string, 0, len(cfg.Source))
+		// The folders to process, and which of their files every source selects
+		srcDirs  []string
+		matchers = make(map[string]Matchers)
 	)
 	sources = append(sources, cfg.Source...)
 
@@ -149,13 +152,24 @@ func Generate(c *Config) (err error) {
 			dirs = append(dirs, "")
 		}
 
-		if err := parseGoPackage(generator, rootDir, dirs, matcher); err != nil {
-			return err
+		// Sources may have a folder in common: its models go to one file
+		for _, dir := range dirs {
+			dir = path.Join(rootDir, dir)
+			if _, ok := matchers[dir]; !ok {
+				srcDirs = append(srcDirs, dir)
+			}
+			matchers[dir] = append(matchers[dir], matcher)
 		}
 
 		sources = sources[1:]
 	}
 
+	for _, dir := range srcDirs {
+		if err := parseGoPackage(generator, dir, []string{""}, matchers[dir]); err != nil {
+			return err
+		}
+	}
+
 	if cfg.Database != nil {
 		// Generate db code
 		if err := renderTemplate(
diff --git a/cmd/sqlgen/codegen/path_matcher.go b/cmd/sqlgen/codegen/path_matcher.go
index bc5a0d5..d97b306 100644
--- a/cmd/sqlgen/codegen/path_matcher.go
+++ b/cmd/sqlgen/codegen/path_matcher.go
@@ -35,3 +35,15 @@ type RegexMatcher struct {
 func (r *RegexMatcher) Match(v string) bool {
 	return r.MatchString(v)
 }
+
+// Matchers matches what at least one of them does.
+type Matchers []Matcher
+
+func (m Matchers) Match(v string) bool {
+	for i := range m {
+		if m[i].Match(v) {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From a6ec3b534e5c381e4dd50931626b51803546456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:18 +0000
Subject: [PATCH 40/42] fix: report standard packages which the go command does
 not list

---
 cmd/sqlgen/codegen/interface.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/sqlgen/codegen/interface.go b/cmd/sqlgen/codegen/interface.go
index aa291df..f4922f4 100644
--- a/cmd/sqlgen/codegen/interface.go
+++ b/cmd/sqlgen/codegen/interface.go
@@ -1,6 +1,7 @@
 package codegen
 
 import (
+	"errors"
 	"fmt"
 	"go/ast"
 	"go/importer"
@@ -57,6 +58,11 @@ var loadInterfaces = sync.OnceValue(func() error {
 		}
 	}
 
+	// The go command may fail without any error of a package
+	if goSqlValuer == nil || goSqlScanner == nil || textMarshaler == nil || typeOfTime == "" {
+		return errors.New(`sqlgen: failed to load standard packages`)
+	}
+
 	fset := token.NewFileSet()
 	f, err := parser.ParseFile(fset, "", sqlBytes, parser.AllErrors)
 	if err != nil {
-- 
2.43.0


From 5f90ad14e3819ec1dfc613a7815e82d704dbca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:04 +0000
Subject: [PATCH 41/42] fix: read imported packages without what an earlier run
 generated

---
 cmd/sqlgen/codegen/codegen.go          | 11 ++++++++---
 cmd/sqlgen/internal/compiler/parser.go | 17 ++++++++++-------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 1244785..c4c73df 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -164,8 +164,13 @@ func Generate(c *Config) (err error) {
 		sources = sources[1:]
 	}
 
+	// What an earlier run generated takes no part in the next one, not even in
+	// the packages which import it
+	generated := lo.Map(srcDirs, func(dir string, _ int) string {
+		return path.Join(dir, cfg.Exec.Filename)
+	})
 	for _, dir := range srcDirs {
-		if err := parseGoPackage(generator, dir, []string{""}, matchers[dir]); err != nil {
+		if err := parseGoPackage(generator, dir, []string{""}, matchers[dir], generated); err != nil {
 			return err
 		}
 	}
@@ -218,6 +223,7 @@ func parseGoPackage(
 	rootDir string,
 	dirs []string,
 	matcher Matcher,
+	generated []string,
 ) error {
 	var dir string
 	var filename string
@@ -255,8 +261,7 @@ func parseGoPackage(
 			Tag:        g.config.Tag,
 			RenameFunc: rename,
 			Matcher:    matcher,
-			// What an earlier run generated takes no part in the next one
-			Exclude: filename,
+			Exclude:    generated,
 		})
 		if errors.Is(err, compiler.ErrSkip) {
 			// Nothing to generate any more, so the generated file is obsolete
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 98333ce..c1d77bf 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -30,8 +30,8 @@ type Config struct {
 	Tag        string
 	RenameFunc func(string) string
 	Matcher    Matcher
-	// The file which does not belong to the sources
-	Exclude string
+	// The files which do not belong to the sources
+	Exclude []string
 }
 
 var annotationRegexp = regexp.MustCompile(`(?i)\s*\+sql\:(.*)`)
@@ -39,11 +39,14 @@ var annotationRegexp = regexp.MustCompile(`(?i)\s*\+sql\:(.*)`)
 func Parse(dir string, cfg *Config) (*Package, error) {
 	// Load single go package and inspect the structs
 	loadCfg := &packages.Config{
-		Dir:  dir,
-		Mode: pkgMode,
+		Dir:     dir,
+		Mode:    pkgMode,
+		Overlay: make(map[string][]byte),
 	}
-	if _, err := os.Stat(cfg.Exclude); err == nil {
-		loadCfg.Overlay = map[string][]byte{cfg.Exclude: []byte("//go:build sqlgen && !sqlgen\n\npackage sqlgen\n")}
+	for _, file := range cfg.Exclude {
+		if _, err := os.Stat(file); err == nil {
+			loadCfg.Overlay[file] = []byte("//go:build sqlgen && !sqlgen\n\npackage sqlgen\n")
+		}
 	}
 	pkgs, err := packages.Load(loadCfg)
 	if err != nil {
@@ -516,7 +519,7 @@ func generatedBySqlgen(pkgs []*packages.Package) func(types.Object) bool {
 func sourceError(dir string, pkg *packages.Package, cfg *Config) error {
 	// Nothing to read, or everything is for another platform
 	if len(pkg.GoFiles) == 0 {
-		if lo.EveryBy(pkg.IgnoredFiles, func(file string) bool { return file == cfg.Exclude }) {
+		if lo.Every(cfg.Exclude, pkg.IgnoredFiles) {
 			return ErrSkip
 		}
 		return ErrExcluded
-- 
2.43.0


From 98e803976dbf23760eaa72fd17de64bd2a27dd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:41 +0000
Subject: [PATCH 42/42] fix: format statements with each argument in its own
 place

A placeholder inside quotes was taken for one, numbered placeholders were
filled in order of appearance, numbers and times lost digits, and pointers
and named byte slices made the formatting panic.
---
 cmd/sqlgen/codegen/templates/db.go.tpl | 84 +++++++++++++++-----------
 1 file changed, 50 insertions(+), 34 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index abd5799..64c5cef 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -8,6 +8,7 @@
 {{- reserveImport "strings" }}
 {{- reserveImport "strconv" }}
 {{- reserveImport "fmt" }}
+{{- reserveImport "io" }}
 {{- reserveImport "sync" }}
 {{- reserveImport "unsafe" }}
 {{- reserveImport "github.com/si3nloong/sqlgen/sequel" }}
@@ -1634,46 +1635,46 @@ func (s *SqlStmt) Format(f fmt.State, verb rune) {
 	str := s.blr.String()
 	switch verb {
 	case 's':
-		f.Write(unsafe.Slice(unsafe.StringData(str), len(str)))
+		io.WriteString(f, str)
 		return
 	case 'v':
 		if !f.Flag('#') && !f.Flag('+') {
-			f.Write(unsafe.Slice(unsafe.StringData(str), len(str)))
+			io.WriteString(f, str)
 			return
 		}
 	}
 
 	var (
-		args = make([]any, len(s.args))
-		idx  int
-		i    = 1
+		quote byte // the quotation which the text is in
+		last  int  // the text before it has been written
+		pos   int
 	)
-
-	copy(args, s.args)
-
-	for {
-		{{ if isStaticVar -}}
-		idx = strings.Index(str, "?")
-		{{ else -}}
-		placeholder := wrapVar(i)
-		idx = strings.Index(str, placeholder)
-		{{ end -}}
-		if idx < 0 {
-			f.Write(unsafe.Slice(unsafe.StringData(str), len(str)))
-			break
+	for i := 0; i < len(str); i++ {
+		switch c := str[i]; {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '\'' || c == '"' || c == '`':
+			quote = c
+		case strings.HasPrefix(str[i:], {{ quote varRune }}):
+			end := i + len({{ quote varRune }})
+			{{ if isStaticVar -}}
+			pos++
+			{{ else -}}
+			for end < len(str) && str[end] >= '0' && str[end] <= '9' {
+				end++
+			}
+			pos, _ = strconv.Atoi(str[i+len({{ quote varRune }}) : end])
+			{{ end -}}
+			if pos < 1 || pos > len(s.args) {
+				continue
+			}
+			io.WriteString(f, str[last:i]+strf(s.args[pos-1]))
+			last, i = end, end-1
 		}
-
-		f.Write([]byte(str[:idx]))
-		v := strf(args[0])
-		f.Write(unsafe.Slice(unsafe.StringData(v), len(v)))
-		{{ if isStaticVar -}}
-		str = str[idx+1:]
-		{{ else -}}
-		str = str[idx+len(placeholder):]
-		{{ end -}}
-		args = args[1:]
-		i++
 	}
+	io.WriteString(f, str[last:])
 }
 
 func (s *SqlStmt) Reset() {
@@ -1739,12 +1740,15 @@ func strf(v any) string {
 	case int64:
 		return strconv.FormatInt(vi, 10)
 	case float64:
-		return strconv.FormatFloat(vi, 'f', 10, 64)
+		return strconv.FormatFloat(vi, 'f', -1, 64)
 	case time.Time:
-		return strconv.Quote(vi.Format(time.RFC3339))
+		return strconv.Quote(vi.Format(time.RFC3339Nano))
 	case sql.RawBytes:
 		return unsafe.String(unsafe.SliceData(vi), len(vi))
 	case driver.Valuer:
+		if rv := reflect.ValueOf(v); rv.Kind() == reflect.Pointer && rv.IsNil() {
+			return "NULL"
+		}
 		val, _ := vi.Value()
 		return strf(val)
 	default:
@@ -1762,10 +1766,22 @@ func strf(v any) string {
 			return strconv.FormatInt(vt.Int(), 10)
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			return strconv.FormatUint(vt.Uint(), 10)
-		case reflect.Float32, reflect.Float64:
-			return strconv.FormatFloat(vt.Float(), 'f', 10, 64)
+		case reflect.Float32:
+			return strconv.FormatFloat(vt.Float(), 'f', -1, 32)
+		case reflect.Float64:
+			return strconv.FormatFloat(vt.Float(), 'f', -1, 64)
+		case reflect.Pointer:
+			if vt.IsNil() {
+				return "NULL"
+			}
+			return strf(vt.Elem().Interface())
+		case reflect.Slice:
+			if vt.Type().Elem().Kind() == reflect.Uint8 {
+				return strf(vt.Bytes())
+			}
+			fallthrough
 		default:
-			panic("unreachable")
+			return strf(fmt.Sprint(v))
 		}
 	}
 }
\ No newline at end of file
-- 
2.43.0


From ef49f13e031c5144745d7270ca77a9b8daf86516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 01/58] fix: number the key placeholder of an update after the
 updated columns

---
 cmd/sqlgen/codegen/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index f6b8f4a..9a981ca 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -628,11 +628,11 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	}
 	buf.WriteString(" WHERE ")
 	if pk, ok := t.AutoIncrKey(); ok {
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(t.Columns)))
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(columns)+1))
 		columns = append(columns, pk)
 	} else if len(t.Keys) == 1 {
 		pk := t.Keys[0]
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(t.Columns)))
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(columns)+1))
 		columns = append(columns, pk)
 	} else {
 		keyNames := lo.Map(t.Keys, func(v *compiler.Column, _ int) string {
-- 
2.43.0


From 06dd14fa1de5ac209a1d575ad4e5bffe002f698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 02/58] fix: release the update statement buffer to the pool
 only once

---
 cmd/sqlgen/codegen/generate.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 9a981ca..915252f 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -665,7 +665,6 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	}
 	fprintfln(w, "}")
 	fprintfln(w, "}")
-	strpool.ReleaseString(buf)
 	return nil
 }
 
-- 
2.43.0


From a080704cd7d325e3953c98643ce6931cbb0e124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:57 +0000
Subject: [PATCH 03/58] fix: insert exactly the columns that the model has
 values for

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 104 ++++++++++++++-----------
 1 file changed, 57 insertions(+), 47 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 9d68c69..eedb088 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -21,7 +21,7 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 		query, args := v.InsertOneStmt()
 		return db.QueryRowContext(ctx, query, args...).Scan(model.Addrs()...)
 	default:
-		columns, args := model.Columns(), model.Values()
+		columns, args := insertColumns(model), insertValues(model)
 		stmt := strpool.AcquireString()
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ({{ quoteVar 1 }}")
 		noOfArgs := len(args)
@@ -61,7 +61,7 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 		query, args := v.InsertOneStmt()
 		return db.ExecContext(ctx, query, args...)
 	default:
-		columns, args := model.Columns(), model.Values()
+		columns, args := insertColumns(model), insertValues(model)
 		query := "INSERT INTO "+DbTable(model)+" ("+strings.Join(columns, ",")+") VALUES ("+strings.Repeat("{{ quoteVar 1 }},", len(columns) - 1)+"{{ quoteVar 1 }});"
 		return db.ExecContext(ctx, query, args...)
 	}
@@ -78,13 +78,11 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 	}
 
 	model := data[0]
-	columns := model.Columns()
+	columns := insertColumns(model)
 	stmt := strpool.AcquireString()
 
-	switch v := any(model).(type) {
+	switch any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		_, idx, _ := v.PK()
-		columns = append(columns[:idx], columns[idx+1:]...)
 		noOfCols := len(columns)
 		cols := strings.Join(columns, ",")
 		args := make([]any, 0, noOfCols*noOfData)
@@ -95,9 +93,7 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
+			args = append(args, insertValues(data[i])...)
 		}
 		stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
 		rows, err := db.QueryContext(ctx, stmt.String(), args...)
@@ -118,10 +114,10 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 		noOfCols := len(columns)
 		args := make([]any, 0, noOfCols*noOfData)
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES "+ model.InsertPlaceholders(0))
-		args = append(args, data[0].Values()...)
+		args = append(args, insertValues(data[0])...)
 		for i := 1; i < noOfData; i++ {
 			stmt.WriteString("," + model.InsertPlaceholders(i))
-			args = append(args, data[i].Values()...)
+			args = append(args, insertValues(data[i])...)
 		}
 		stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
 		rows, err := db.QueryContext(ctx, stmt.String(), args...)
@@ -149,13 +145,11 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 	}
 
 	model := data[0]
-	columns := model.Columns()
+	columns := insertColumns(model)
 	stmt := strpool.AcquireString()
 
-	switch v := any(model).(type) {
+	switch any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		_, idx, _ := v.PK()
-		columns = append(columns[:idx], columns[idx+1:]...)
 		noOfCols := len(columns)
 		cols := strings.Join(columns, ",")
 		args := make([]any, 0, noOfCols*noOfData)
@@ -167,9 +161,7 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 			} else {
 				stmt.WriteString(placeholder)
 			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
+			args = append(args, insertValues(data[i])...)
 		}
 		stmt.WriteByte(';')
 		result, err := db.ExecContext(ctx, stmt.String(), args...)
@@ -181,10 +173,10 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 		args := make([]any, 0, noOfCols*noOfData)
 		placeholder := "(" + strings.Repeat(",{{ quoteVar 1 }}", noOfCols)[1:] + ")"
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES "+ placeholder)
-		args = append(args, data[0].Values()...)
+		args = append(args, insertValues(data[0])...)
 		for i := 1; i < noOfData; i++ {
 			stmt.WriteString("," + placeholder)
-			args = append(args, data[i].Values()...)
+			args = append(args, insertValues(data[i])...)
 		}
 		stmt.WriteByte(';')
 		result, err := db.ExecContext(ctx, stmt.String(), args...)
@@ -238,18 +230,16 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 
 	var (
 		stmt     = strpool.AcquireString()
-		columns  = model.Columns()
+		columns  = insertColumns(model)
 		noOfCols = len(columns)
-		values   = model.Values()
+		values   = insertValues(model)
 	)
 	defer strpool.ReleaseString(stmt)
 
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
+		pkName, _, _ := v.PK()
 		opt.omitFields = append(opt.omitFields, pkName)
-		columns = append(columns[:idx], columns[idx+1:]...)
-		values = append(values[:idx], values[idx+1:]...)
 		// Don't include auto increment primary key on INSERT
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 	case sequel.PrimaryKeyer:
@@ -324,7 +314,7 @@ func Upsert[T interface {
 
 	var (
 		model    = data[0]
-		columns  = model.Columns()
+		columns  = insertColumns(model)
 		noOfCols = len(columns)
 		args     = make([]any, 0, noOfCols*noOfData)
 		opt      upsertOpts
@@ -337,9 +327,8 @@ func Upsert[T interface {
 	var stmt = strpool.AcquireString()
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
+		pkName, _, _ := v.PK()
 		opt.omitFields = append(opt.omitFields, pkName)
-		columns = append(columns[:idx], columns[idx+1:]...)
 		// Don't include auto increment primary key on INSERT
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		
@@ -349,9 +338,7 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
+			args = append(args, insertValues(data[i])...)
 		}
 	case sequel.PrimaryKeyer:
 		pkName, _, _ := v.PK()
@@ -363,7 +350,7 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, data[i].Values()...)
+			args = append(args, insertValues(data[i])...)
 		}
 	case sequel.CompositeKeyer:
 		keyNames, _, _ := v.CompositeKey()
@@ -375,7 +362,7 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, data[i].Values()...)
+			args = append(args, insertValues(data[i])...)
 		}
 	default:
 		panic("unreachable")
@@ -410,7 +397,6 @@ func Upsert[T interface {
 		if omitter, ok := any(model).(setOnUpsertOmitter); ok {
 			opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
 		}
-		columns = model.Columns()
 		for i := range opt.omitFields {
 			omitDict[opt.omitFields[i]] = struct{}{}
 		}
@@ -451,7 +437,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 	switch v := any(model).(type) {
 	case sequel.PrimaryKeyer:
 		pkName, idx, _ := v.PK()
-		columns := model.Columns()
+		columns := insertColumns(model)
 		if !override {
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
@@ -476,7 +462,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 			clear(omitDict)
 		}
 		if _, ok := any(model).(sequel.AutoIncrKeyer); ok {
-			result, err := db.ExecContext(ctx, stmt.String(), model.Values()...)
+			result, err := db.ExecContext(ctx, stmt.String(), insertValues(model)...)
 			if err != nil {
 				return nil, err
 			}
@@ -496,10 +482,10 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 			}
 			return result, nil
 		}
-		return db.ExecContext(ctx, stmt.String(), model.Values()...)
+		return db.ExecContext(ctx, stmt.String(), insertValues(model)...)
 	case sequel.CompositeKeyer:
 		names, idxs, _ := v.CompositeKey()
-		columns := model.Columns()
+		columns := insertColumns(model)
 		if !override {
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
@@ -525,7 +511,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 			}
 			clear(dict)
 		}
-		return db.ExecContext(ctx, stmt.String(), model.Values()...)
+		return db.ExecContext(ctx, stmt.String(), insertValues(model)...)
 	default:
 		panic("unreachable")
 	}
@@ -543,7 +529,7 @@ func Upsert[T interface {
 
 	var (
 		model    = data[0]
-		columns  = model.Columns()
+		columns  = insertColumns(model)
 		noOfCols = len(columns)
 		args     = make([]any, 0, noOfCols*noOfData)
 	)
@@ -552,10 +538,9 @@ func Upsert[T interface {
 	defer strpool.ReleaseString(stmt)
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
+		pkName, _, _ := v.PK()
 		omittedFields = append(omittedFields, pkName)
 		// Don't include auto increment primary key on INSERT
-		columns = append(columns[:idx], columns[idx+1:]...)
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
@@ -568,9 +553,7 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(placeholder[1:])
 			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
+			args = append(args, insertValues(data[i])...)
 		}
 	case sequel.PrimaryKeyer:
 		pkName, _, _ := v.PK()
@@ -586,7 +569,7 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, data[i].Values()...)
+			args = append(args, insertValues(data[i])...)
 		}
 	case sequel.CompositeKeyer:
 		if override {
@@ -600,7 +583,7 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, data[i].Values()...)
+			args = append(args, insertValues(data[i])...)
 		}
 		_, idxs, _ := v.CompositeKey()
 		// Exclude primary key, don't update it
@@ -1544,6 +1527,33 @@ func TableColumns[T sequel.Columner](model T) []string {
 	return model.Columns()
 }
 
+// insertColumns returns the columns to insert, without the auto increment key
+// and the columns which are readonly.
+func insertColumns[T sequel.Columner](model T) []string {
+	if v, ok := any(model).(sequel.InsertColumner); ok {
+		return v.InsertColumns()
+	}
+	columns := model.Columns()
+	if v, ok := any(model).(sequel.AutoIncrKeyer); ok {
+		_, idx, _ := v.PK()
+		return slices.Delete(slices.Clone(columns), idx, idx+1)
+	}
+	return columns
+}
+
+// insertValues returns the values of the columns from insertColumns.
+func insertValues[T sequel.Valuer](model T) []any {
+	values := model.Values()
+	if _, ok := any(model).(sequel.InsertColumner); ok {
+		return values
+	}
+	if v, ok := any(model).(sequel.AutoIncrKeyer); ok {
+		_, idx, _ := v.PK()
+		return slices.Delete(slices.Clone(values), idx, idx+1)
+	}
+	return values
+}
+
 func dbName(model any) string {
 	if v, ok := model.(sequel.Databaser); ok {
 		return v.DatabaseName() + "."
-- 
2.43.0


From b121e503f98ddb7e3b82bff236a27a65ef1d66c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:57 +0000
Subject: [PATCH 04/58] fix: upsert of a composite key panics or updates the
 wrong columns

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 28 +++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index eedb088..5fb1908 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -484,30 +484,32 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 		}
 		return db.ExecContext(ctx, stmt.String(), insertValues(model)...)
 	case sequel.CompositeKeyer:
-		names, idxs, _ := v.CompositeKey()
+		names, _, _ := v.CompositeKey()
 		columns := insertColumns(model)
 		if !override {
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
+			// Exclude composite key, don't update it
 			dict := make(map[string]struct{})
-			for i := range append(names, omittedFields...) {
+			for i := range names {
+				dict[names[i]] = struct{}{}
+			}
+			for i := range omittedFields {
 				dict[omittedFields[i]] = struct{}{}
 			}
 			noOfCols := len(columns)
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
-			// Exclude composite key, don't update it
-			for i := len(idxs) - 1; i >= 0; i-- {
-				columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
-			}
+			first := true
 			for i := range columns {
 				if _, ok := dict[columns[i]]; ok {
 					continue
 				}
-				if i < noOfCols-1 {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + "),")
-				} else {
+				if first {
 					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
+				} else {
+					stmt.WriteString(","+ columns[i] + " =VALUES(" + columns[i] + ")")
 				}
+				first = false
 			}
 			clear(dict)
 		}
@@ -585,11 +587,9 @@ func Upsert[T interface {
 			}
 			args = append(args, insertValues(data[i])...)
 		}
-		_, idxs, _ := v.CompositeKey()
-		// Exclude primary key, don't update it
-		for i := len(idxs) - 1; i >= 0; i-- {
-			columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
-		}
+		// Exclude composite key, don't update it
+		keyNames, _, _ := v.CompositeKey()
+		omittedFields = append(omittedFields, keyNames...)
 	}
 	if override {
 		stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
-- 
2.43.0


From 21893468350e155d5de779a5ea4b9346a1ce693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:57 +0000
Subject: [PATCH 05/58] fix: update by key of models without a statement of
 their own

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 42 ++++++++++++++------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 5fb1908..e160965 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -655,11 +655,8 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		query, args := v.UpdateOneByPKStmt()
 		return db.ExecContext(ctx, query, args...)
 	case sequel.PrimaryKeyer:
-		pkName, pkIdx, pk := v.PK()
-		columns := model.Columns()
-		columns = append(columns[:pkIdx], columns[pkIdx+1:]...)
-		values := model.Values()
-		values = append(values[:pkIdx], append(values[pkIdx+1:], pk)...)
+		pkName, _, pk := v.PK()
+		columns, values := updateColumns(model, pkName)
 		{{ if isStaticVar -}}
 		return db.ExecContext(ctx, "UPDATE "+DbTable(model)+" SET "+strings.Join(columns, " = {{ quoteVar 1 }},")+" = {{ quoteVar 1 }} WHERE "+pkName+" = {{ quoteVar 1 }};", append(values, pk)...)
 		{{ else -}}
@@ -670,38 +667,30 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		for i := 1; i < noOfColumn; i++ {
 			stmt.WriteString(","+ columns[i] +" = "+ wrapVar(i + 1))
 		}
-		stmt.WriteString(" WHERE "+ pkName +" = "+ wrapVar(noOfColumn + 2)+ ";")
+		stmt.WriteString(" WHERE "+ pkName +" = "+ wrapVar(noOfColumn + 1)+ ";")
 		return db.ExecContext(ctx, stmt.String(), append(values, pk)...)
 		{{ end -}}
 	case sequel.CompositeKeyer:
-		columns := model.Columns()
-		keyNames, keyIdxs, keys := v.CompositeKey()
-		values := model.Values()
-		sort.Ints(keyIdxs)
-		for i := len(keyIdxs) - 1; i >= 0; i-- {
-			columns = append(columns[:keyIdxs[i]], columns[keyIdxs[i]+1:]...)
-			values = append(values[:keyIdxs[i]], values[keyIdxs[i]+1:]...)
-		}
-		noOfColumn := len(columns)
-		args := make([]any, 0, noOfColumn+len(keys))
+		keyNames, _, keys := v.CompositeKey()
+		columns, values := updateColumns(model, keyNames...)
 		{{ if isStaticVar -}}
 		query := "UPDATE " + DbTable(model) + " SET " +strings.Join(columns, " = {{ quoteVar 1 }},")+" = {{ quoteVar 1 }} WHERE (" + strings.Join(keyNames, ",") + ") = ({{ quoteVar 1 }}" + strings.Repeat(",{{ quoteVar 1 }}", len(keyNames)-1)+");"
-		return db.ExecContext(ctx, query, append(args, keys...)...)
+		return db.ExecContext(ctx, query, append(values, keys...)...)
 		{{ else -}}
 		stmt := strpool.AcquireString()
 		defer strpool.ReleaseString(stmt)
 		stmt.WriteString("UPDATE " + DbTable(model) + " SET " + columns[0] + " = {{ quoteVar 1}}")
+		noOfColumn := len(columns)
 		for i := 1; i < noOfColumn; i++ {
 			stmt.WriteString("," + columns[i] + " = " + wrapVar(i+1))
 		}
 		stmt.WriteString(" WHERE (" + strings.Join(keyNames, ",") + ") = (" + wrapVar(noOfColumn+1))
 		noOfKey := len(keyNames)
 		for i := 1; i < noOfKey; i++ {
-			stmt.WriteString("," + columns[i] + " = " + wrapVar(noOfColumn+i+1))
+			stmt.WriteString("," + wrapVar(noOfColumn+i+1))
 		}
 		stmt.WriteString(");")
-		args = append(args, values...)
-		return db.ExecContext(ctx, stmt.String(), append(args, keys...)...)
+		return db.ExecContext(ctx, stmt.String(), append(values, keys...)...)
 		{{ end -}}
 	default:
 		panic("unreachable")
@@ -1554,6 +1543,19 @@ func insertValues[T sequel.Valuer](model T) []any {
 	return values
 }
 
+// updateColumns returns the columns to update, without the keys, and their values.
+func updateColumns[T sequel.ColumnValuer](model T, keys ...string) ([]string, []any) {
+	columns, values := insertColumns(model), insertValues(model)
+	cols, args := make([]string, 0, len(columns)), make([]any, 0, len(columns)+len(keys))
+	for i := range columns {
+		if !slices.Contains(keys, columns[i]) {
+			cols = append(cols, columns[i])
+			args = append(args, values[i])
+		}
+	}
+	return cols, args
+}
+
 func dbName(model any) string {
 	if v, ok := model.(sequel.Databaser); ok {
 		return v.DatabaseName() + "."
-- 
2.43.0


From f444b55a7d9fa24c783f238ecfd979b1bdea9200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:23 +0000
Subject: [PATCH 06/58] fix: upsert with every column omitted has an empty
 update list

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 36 ++++++++++++++++----------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index e160965..37a3db3 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -272,15 +272,15 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 			panic("unreachable")
 		}
 	}
-	if opt.doNothing {
+	if omitter, ok := any(model).(setOnUpsertOmitter); ok {
+		opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
+	}
+	if opt.doNothing || !hasUpdate(columns, opt.omitFields) {
 		stmt.WriteString(" DO NOTHING")
 	} else {
 		stmt.WriteString(" DO UPDATE SET ")
 		omitDict := make(map[string]struct{})
 		noOfCols = len(columns)
-		if omitter, ok := any(model).(setOnUpsertOmitter); ok {
-			opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
-		}
 		for i := range opt.omitFields {
 			omitDict[opt.omitFields[i]] = struct{}{}
 		}
@@ -389,14 +389,14 @@ func Upsert[T interface {
 			panic("unreachable")
 		}
 	}
-	if opt.doNothing {
+	if omitter, ok := any(model).(setOnUpsertOmitter); ok {
+		opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
+	}
+	if opt.doNothing || !hasUpdate(columns, opt.omitFields) {
 		stmt.WriteString(" DO NOTHING")
 	} else {
 		stmt.WriteString(" DO UPDATE SET ")
 		omitDict := make(map[string]struct{})
-		if omitter, ok := any(model).(setOnUpsertOmitter); ok {
-			opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
-		}
 		for i := range opt.omitFields {
 			omitDict[opt.omitFields[i]] = struct{}{}
 		}
@@ -438,7 +438,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 	case sequel.PrimaryKeyer:
 		pkName, idx, _ := v.PK()
 		columns := insertColumns(model)
-		if !override {
+		if !override || !hasUpdate(columns, append(omittedFields, pkName)) {
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
 			omitDict := map[string]struct{}{pkName: {}}
@@ -486,7 +486,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 	case sequel.CompositeKeyer:
 		names, _, _ := v.CompositeKey()
 		columns := insertColumns(model)
-		if !override {
+		if !override || !hasUpdate(columns, append(omittedFields, names...)) {
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
 			// Exclude composite key, don't update it
@@ -542,6 +542,7 @@ func Upsert[T interface {
 	case sequel.AutoIncrKeyer:
 		pkName, _, _ := v.PK()
 		omittedFields = append(omittedFields, pkName)
+		override = override && hasUpdate(columns, omittedFields)
 		// Don't include auto increment primary key on INSERT
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
@@ -560,6 +561,7 @@ func Upsert[T interface {
 	case sequel.PrimaryKeyer:
 		pkName, _, _ := v.PK()
 		omittedFields = append(omittedFields, pkName)
+		override = override && hasUpdate(columns, omittedFields)
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
@@ -574,6 +576,10 @@ func Upsert[T interface {
 			args = append(args, insertValues(data[i])...)
 		}
 	case sequel.CompositeKeyer:
+		// Exclude composite key, don't update it
+		keyNames, _, _ := v.CompositeKey()
+		omittedFields = append(omittedFields, keyNames...)
+		override = override && hasUpdate(columns, omittedFields)
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
@@ -587,9 +593,6 @@ func Upsert[T interface {
 			}
 			args = append(args, insertValues(data[i])...)
 		}
-		// Exclude composite key, don't update it
-		keyNames, _, _ := v.CompositeKey()
-		omittedFields = append(omittedFields, keyNames...)
 	}
 	if override {
 		stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
@@ -1556,6 +1559,13 @@ func updateColumns[T sequel.ColumnValuer](model T, keys ...string) ([]string, []
 	return cols, args
 }
 
+// hasUpdate tells whether any of the columns is not omitted.
+func hasUpdate(columns, omitted []string) bool {
+	return slices.ContainsFunc(columns, func(column string) bool {
+		return !slices.Contains(omitted, column)
+	})
+}
+
 func dbName(model any) string {
 	if v, ok := model.(sequel.Databaser); ok {
 		return v.DatabaseName() + "."
-- 
2.43.0


From 5cab4dbbe3fbe778b450f8964e5aacf97d0e1c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:23 +0000
Subject: [PATCH 07/58] fix: upsert that does nothing on conflict returns no
 row for existing records

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 37a3db3..10e234e 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -275,7 +275,8 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 	if omitter, ok := any(model).(setOnUpsertOmitter); ok {
 		opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
 	}
-	if opt.doNothing || !hasUpdate(columns, opt.omitFields) {
+	opt.doNothing = opt.doNothing || !hasUpdate(columns, opt.omitFields)
+	if opt.doNothing {
 		stmt.WriteString(" DO NOTHING")
 	} else {
 		stmt.WriteString(" DO UPDATE SET ")
@@ -299,7 +300,12 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 		clear(omitDict)
 	}
 	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
-	return db.QueryRowContext(ctx, stmt.String(), values...).Scan(model.Addrs()...)
+	err := db.QueryRowContext(ctx, stmt.String(), values...).Scan(model.Addrs()...)
+	if opt.doNothing && errors.Is(err, sql.ErrNoRows) {
+		// The record exists, there is nothing to return
+		return nil
+	}
+	return err
 }
 
 // Upsert is a helper function to upsert multiple records.
@@ -392,7 +398,8 @@ func Upsert[T interface {
 	if omitter, ok := any(model).(setOnUpsertOmitter); ok {
 		opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
 	}
-	if opt.doNothing || !hasUpdate(columns, opt.omitFields) {
+	opt.doNothing = opt.doNothing || !hasUpdate(columns, opt.omitFields)
+	if opt.doNothing {
 		stmt.WriteString(" DO NOTHING")
 	} else {
 		stmt.WriteString(" DO UPDATE SET ")
@@ -414,6 +421,13 @@ func Upsert[T interface {
 		}
 		clear(omitDict)
 	}
+	if opt.doNothing {
+		// Existing records are not returned, so the returned rows don't match with the data
+		stmt.WriteByte(';')
+		result, err := db.ExecContext(ctx, stmt.String(), args...)
+		strpool.ReleaseString(stmt)
+		return result, err
+	}
 	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
 	rows, err := db.QueryContext(ctx, stmt.String(), args...)
 	strpool.ReleaseString(stmt) // Deallocate statement
-- 
2.43.0


From 01987bc6fb2fc17c46a89986b3e16f1446c9b1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:23 +0000
Subject: [PATCH 08/58] fix: upsert statements in the syntax of sqlite

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 47 ++++++++++++++++++--------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 10e234e..9c00ffb 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -445,6 +445,25 @@ func Upsert[T interface {
 	return sequel.NewRowsAffectedResult(i), rows.Close()
 }
 {{ else }}
+const (
+{{- if eq driver "sqlite" }}
+	insertIgnore = "INSERT OR IGNORE INTO "
+	onConflict   = " ON CONFLICT DO UPDATE SET "
+{{- else }}
+	insertIgnore = "INSERT IGNORE INTO "
+	onConflict   = " ON DUPLICATE KEY UPDATE "
+{{- end }}
+)
+
+// newValue is the value which is proposed for insertion.
+func newValue(column string) string {
+{{- if eq driver "sqlite" }}
+	return "excluded." + column
+{{- else }}
+	return "VALUES(" + column + ")"
+{{- end }}
+}
+
 func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Context, db *sql.DB, model Ptr, override bool, omittedFields ...string) (sql.Result, error) {
 	stmt := strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
@@ -453,23 +472,23 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 		pkName, idx, _ := v.PK()
 		columns := insertColumns(model)
 		if !override || !hasUpdate(columns, append(omittedFields, pkName)) {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
+			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
 			omitDict := map[string]struct{}{pkName: {}}
 			for i := range omittedFields {
 				omitDict[omittedFields[i]] = struct{}{}
 			}
 			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ")" + onConflict)
 			first := true
 			for i := range columns {
 				if _, ok := omitDict[columns[i]]; ok {
 					continue
 				}
 				if first {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
+					stmt.WriteString(columns[i] + " =" + newValue(columns[i]))
 				} else {
-					stmt.WriteString(","+ columns[i] + " =VALUES(" + columns[i] + ")")
+					stmt.WriteString(","+ columns[i] + " =" + newValue(columns[i]))
 				}
 				first = false
 			}
@@ -501,7 +520,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 		names, _, _ := v.CompositeKey()
 		columns := insertColumns(model)
 		if !override || !hasUpdate(columns, append(omittedFields, names...)) {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
+			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
 			// Exclude composite key, don't update it
 			dict := make(map[string]struct{})
@@ -512,16 +531,16 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 				dict[omittedFields[i]] = struct{}{}
 			}
 			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ")" + onConflict)
 			first := true
 			for i := range columns {
 				if _, ok := dict[columns[i]]; ok {
 					continue
 				}
 				if first {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
+					stmt.WriteString(columns[i] + " =" + newValue(columns[i]))
 				} else {
-					stmt.WriteString(","+ columns[i] + " =VALUES(" + columns[i] + ")")
+					stmt.WriteString(","+ columns[i] + " =" + newValue(columns[i]))
 				}
 				first = false
 			}
@@ -561,7 +580,7 @@ func Upsert[T interface {
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		placeholder := ",(" + strings.Repeat(",?", noOfCols)[1:] + ")"
 		for i := 0; i < noOfData; i++ {
@@ -579,7 +598,7 @@ func Upsert[T interface {
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		for i := 0; i < noOfData; i++ {
 			if i > 0 {
@@ -597,7 +616,7 @@ func Upsert[T interface {
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		for i := 0; i < noOfData; i++ {
 			if i > 0 {
@@ -609,7 +628,7 @@ func Upsert[T interface {
 		}
 	}
 	if override {
-		stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
+		stmt.WriteString(onConflict)
 		// Don't update primary key when we do upsert
 		omitDict := map[string]struct{}{}
 		for i := range omittedFields {
@@ -622,9 +641,9 @@ func Upsert[T interface {
 				continue
 			}
 			if first {
-				stmt.WriteString(columns[i] + "=VALUES(" + columns[i] + ")")
+				stmt.WriteString(columns[i] + "=" + newValue(columns[i]))
 			} else {
-				stmt.WriteString(","+ columns[i] + "=VALUES(" + columns[i] + ")")
+				stmt.WriteString(","+ columns[i] + "=" + newValue(columns[i]))
 			}
 			first = false
 		}
-- 
2.43.0


From 73576404bcab673f15af69966fba68394a58ff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:37 +0000
Subject: [PATCH 09/58] fix: membership in an empty list is a syntax error or a
 panic

---
 cmd/sqlgen/codegen/templates/operator.go.tpl | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/operator.go.tpl b/cmd/sqlgen/codegen/templates/operator.go.tpl
index de50d7b..415251c 100644
--- a/cmd/sqlgen/codegen/templates/operator.go.tpl
+++ b/cmd/sqlgen/codegen/templates/operator.go.tpl
@@ -56,6 +56,10 @@ func NotEqual[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 
 func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
+		if len(values) == 0 {
+			w.WriteString("1 = 0")
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
@@ -77,6 +81,10 @@ func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 
 func NotIn[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
+		if len(values) == 0 {
+			w.WriteString("1 = 1")
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-- 
2.43.0


From 17cb180fe1d140e99951f375f847043d9daf5676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:37 +0000
Subject: [PATCH 10/58] fix: offset without limit is a syntax error in mysql
 and sqlite

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 9c00ffb..14b67f0 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1209,6 +1209,11 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 	if stmt.Limit > 0 {
 		blr.WriteString(" LIMIT " + strconv.Itoa((int)(stmt.Limit)))
 	}
+	{{- if ne driver "postgres" }} else if stmt.Offset > 0 {
+		// An offset is only allowed after a limit
+		blr.WriteString(" LIMIT 9223372036854775807")
+	}
+	{{- end }}
 	if stmt.Offset > 0 {
 		blr.WriteString(" OFFSET " + strconv.FormatUint(stmt.Offset, 10))
 	}
-- 
2.43.0


From 738c2ab677f47ee947f00cd085b6dfeea77e3985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:37 +0000
Subject: [PATCH 11/58] fix: update or delete the table that the statement
 names

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 14b67f0..a63bfa0 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1336,7 +1336,7 @@ func ExecStmt[T any, Stmt interface {
 
 	switch vi := any(stmt).(type) {
 	case UpdateStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
+		if vt, ok := any(v).(sequel.Tabler); ok && vi.Table == "" {
 			blr.WriteString("UPDATE " + DbTable(vt))
 		} else {
 			blr.WriteString("UPDATE " + dbName(v) + vi.Table)
@@ -1375,7 +1375,7 @@ func ExecStmt[T any, Stmt interface {
 		{{ end -}}
 
 	case DeleteStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
+		if vt, ok := any(v).(sequel.Tabler); ok && vi.FromTable == "" {
 			blr.WriteString("DELETE FROM " + DbTable(vt))
 		} else {
 			blr.WriteString("DELETE FROM " + dbName(v) + vi.FromTable)
-- 
2.43.0


From 8399a37d81a45d61c6652b3822e5850c9d3ba61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:37 +0000
Subject: [PATCH 12/58] fix: release the statement when a single-row query has
 no table

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index a63bfa0..1c7b14a 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1269,6 +1269,7 @@ func QueryOneStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.
 		case sequel.Tabler:
 			blr.WriteString(" FROM " + DbTable(vj))
 		default:
+			ReleaseStmt(blr)
 			return nil, fmt.Errorf("missing table name for model %T", v)
 		}
 	}
-- 
2.43.0


From 77d633a4c665976f50b8f1dd595a9b035c14410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:35 +0000
Subject: [PATCH 13/58] fix: pagination skips, repeats or fails to find records

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 405 ++++++++-----------------
 1 file changed, 125 insertions(+), 280 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 1c7b14a..f02ff49 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -832,318 +832,163 @@ type Pager[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]] struct {
 	stmt *PaginateStmt
 }
 
+// Prev iterates backward, from the cursor or else from the last record.
 func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.pages(ctx, db, false, cursor)
+}
+
+// Next iterates forward, from the cursor or else from the first record.
+func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.pages(ctx, db, true, cursor)
+}
+
+func (r *Pager[T, Ptr]) pages(ctx context.Context, db *sql.DB, forward bool, cursor []T) iter.Seq2[[]T, error] {
 	return func(yield func([]T, error) bool) {
 		var (
-			v         T
-			hasCursor bool
-			maxLimit  = r.stmt.Limit
+			from     Ptr
+			maxLimit = int(r.stmt.Limit)
 		)
 		if len(cursor) > 0 {
-			v = cursor[0]
-			hasCursor = true
+			v := cursor[0]
+			from = &v
+			if err := FindByPK[T](ctx, db, from); err != nil {
+				yield(nil, err)
+				return
+			}
 		}
-		blr := AcquireStmt()
-		defer ReleaseStmt(blr)
-
 		for {
-			if hasCursor {
-				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
-					yield(nil, err)
-					return
-				}
-			}
-
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
-			if r.stmt.Where != nil {
-				r.stmt.Where(blr)
-			}
-
-			if n := len(r.stmt.OrderBy); n > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
-				}
-
-				buf := strpool.AcquireString()
-				for i := 0; i < n; i++ {
-					orderedColumn := r.stmt.OrderBy[i]
-					columnName := orderedColumn.ColumnName()
-					value := values[colDict[columnName]]
-					if orderedColumn.Asc() {
-						// If ascending
-						blr.WriteString(columnName + " <= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " < " + blr.Var(value) + " OR ")
-					} else {
-						// If descending
-						blr.WriteString(columnName + " >= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " > " + blr.Var(value) + " OR ")
-					}
-				}
-				clear(colDict)
-				blr.WriteString("("+ buf.String())
-				strpool.ReleaseString(buf)
-			}
-
-			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") <= " + blr.Vars(vals)+")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("("+pkName + " <= " + blr.Var(val)+")")
-				default:
-					panic("unreachable")
-				}
-			}
-			
-
-			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
-					}
-				}
-				var (
-					suffix  = " DESC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if lastCol.Asc() {
-					suffix = " ASC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +")"+ suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
-				}
-			} else {
-				// If there is no order by clause,
-				// descending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +") DESC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + " DESC")
-				default:
-					panic("unreachable")
-				}
-			}
 			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
-
-			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
-			blr.Reset()
+			data, err := r.fetch(ctx, db, forward, from, maxLimit+1)
 			if err != nil {
 				yield(nil, err)
 				return
 			}
-
-			data := make([]T, 0, r.stmt.Limit+1)
-			for rows.Next() {
-				var v T
-				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
-					rows.Close()
-					yield(nil, err)
-					return
-				}
-				data = append(data, v)
-			}
-			rows.Close()
-
-			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
-				if !yield(data, nil) {
-					return
-				}
+			if len(data) <= maxLimit {
+				yield(data, nil)
 				return
 			}
-
-			if !yield(data[:noOfRecord-1], nil) {
+			next := data[maxLimit] // Set next cursor
+			from = &next
+			if !yield(data[:maxLimit:maxLimit], nil) {
 				return
 			}
-
-			v = data[noOfRecord-1] // Set next cursor
-			data = nil // Reset result
-			hasCursor = true
 		}
 	}
 }
 
-func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
-	return func(yield func([]T, error) bool) {
-		var (
-			v         T
-			hasCursor bool
-			maxLimit  = r.stmt.Limit
-		)
-		if len(cursor) > 0 {
-			v = cursor[0]
-			hasCursor = true
-		}
-		blr := AcquireStmt()
-		defer ReleaseStmt(blr)
-
-		for {
-			if hasCursor {
-				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
-					yield(nil, err)
-					return
-				}
-			}
-
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
-			if r.stmt.Where != nil {
-				r.stmt.Where(blr)
-			}
-
-			if len(r.stmt.OrderBy) > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
-				}
+// fetch returns the records of a page, the first one is the cursor.
+func (r *Pager[T, Ptr]) fetch(ctx context.Context, db *sql.DB, forward bool, cursor Ptr, limit int) ([]T, error) {
+	var (
+		v       T
+		keys    []string
+		values  []any
+		orderBy = slices.Clone(r.stmt.OrderBy)
+		asc     = len(orderBy) == 0 || orderBy[len(orderBy)-1].Asc()
+	)
+	if cursor != nil {
+		v = *cursor
+	}
+	switch vi := any(v).(type) {
+	case sequel.CompositeKeyer:
+		keys, _, values = vi.CompositeKey()
+	case sequel.PrimaryKeyer:
+		name, _, value := vi.PK()
+		keys, values = []string{name}, []any{value}
+	default:
+		panic("unreachable")
+	}
+	// The key is the tie-breaker
+	for i := range keys {
+		orderBy = append(orderBy, sequel.OrderByColumn(keys[i], asc))
+	}
 
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" AND ")
-					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " >= " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " <= " + blr.Var(val))
-					}
-				}
-				blr.WriteString(" AND (")
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" OR ")
-					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " > " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " < " + blr.Var(val))
-					}
-				}
-				clear(colDict)
-				blr.WriteString(" OR ")
+	blr := AcquireStmt()
+	defer ReleaseStmt(blr)
+	blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v))
+	if r.stmt.Where != nil {
+		blr.WriteString(" WHERE (")
+		r.stmt.Where(blr)
+		blr.WriteByte(')')
+	}
+	if cursor != nil {
+		if r.stmt.Where != nil {
+			blr.WriteString(" AND ")
+		} else {
+			blr.WriteString(" WHERE ")
+		}
+		// Compare the columns with those of the cursor, in priority order
+		for i := range orderBy {
+			name, op := orderBy[i].ColumnName(), " < "
+			asc := orderBy[i].Asc() == forward
+			if asc {
+				op = " > "
 			}
-
-			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") >= " + blr.Vars(vals)+")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("("+pkName + " >= " + blr.Var(val)+")")
-				default:
-					panic("unreachable")
+			if n := i - len(r.stmt.OrderBy); n >= 0 {
+				if n == len(keys)-1 {
+					// The cursor itself is included
+					blr.WriteString(name + op[:2] + "= " + blr.Var(values[n]))
+				} else {
+					blr.WriteString("(" + name + op + blr.Var(values[n]) + " OR (" + name + " = " + blr.Var(values[n]) + " AND ")
 				}
+				continue
 			}
-
-			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
+			value := func() string {
+				str := "(SELECT " + name + " FROM " + DbTable(v) + " WHERE "
+				for j := range keys {
+					if j > 0 {
+						str += " AND "
 					}
+					str += keys[j] + " = " + blr.Var(values[j])
 				}
-				var (
-					suffix  = " ASC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if !lastCol.Asc() {
-					suffix = " DESC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +")"+ suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
-				}
-			} else {
-				// If there is no order by clause,
-				// ascending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +") ASC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName)
-				default:
-					panic("unreachable")
-				}
-			}
-			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
-
-			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
-			blr.Reset()
-			if err != nil {
-				yield(nil, err)
-				return
-			}
-
-			data := make([]T, 0, r.stmt.Limit+1)
-			for rows.Next() {
-				var v T
-				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
-					rows.Close()
-					yield(nil, err)
-					return
-				}
-				data = append(data, v)
+				return str + ")"
 			}
-			rows.Close()
-
-			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
-				if !yield(data, nil) {
-					return
-				}
-				return
+			blr.WriteString("(" + name + op + value())
+			{{- if eq driver "postgres" }}
+			nullsLast := asc
+			{{- else }}
+			nullsLast := !asc
+			{{- end }}
+			if nullsLast {
+				blr.WriteString(" OR (" + name + " IS NULL AND " + value() + " IS NOT NULL)")
+			} else {
+				blr.WriteString(" OR (" + name + " IS NOT NULL AND " + value() + " IS NULL)")
 			}
+			blr.WriteString(" OR ((" + name + " = " + value() + " OR (" + name + " IS NULL AND " + value() + " IS NULL)) AND ")
+		}
+		blr.WriteString(strings.Repeat("))", len(orderBy)-1))
+	}
+	for i := range orderBy {
+		if i > 0 {
+			blr.WriteByte(',')
+		} else {
+			blr.WriteString(" ORDER BY ")
+		}
+		if orderBy[i].Asc() == forward {
+			blr.WriteString(orderBy[i].ColumnName() + " ASC")
+		} else {
+			blr.WriteString(orderBy[i].ColumnName() + " DESC")
+		}
+	}
+	blr.WriteString(" LIMIT " + strconv.Itoa(limit) + ";")
 
-			if !yield(data[:noOfRecord-1], nil) {
-				return
-			}
+	rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
 
-			v = data[noOfRecord-1] // Set next cursor
-			data = nil // Reset result
-			hasCursor = true
+	data := []T{}
+	for rows.Next() {
+		var v T
+		if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
+			return nil, err
 		}
+		data = append(data, v)
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
 	}
+	return data, rows.Close()
 }
 
 type SelectStmt struct {
-- 
2.43.0


From 7995b6e2606fd7365340cf0f0dd8abc6138a6b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:40 +0000
Subject: [PATCH 14/58] fix: report errors that occur while rows are read

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index f02ff49..8de37f4 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -109,6 +109,9 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 			}
 			i++
 		}
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		return sequel.NewRowsAffectedResult(i), rows.Close()
 	default:
 		noOfCols := len(columns)
@@ -133,6 +136,9 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 			}
 			i++
 		}
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		return sequel.NewRowsAffectedResult(i), rows.Close()
 	}
 }
@@ -442,6 +448,9 @@ func Upsert[T interface {
 		}
 		i++
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return sequel.NewRowsAffectedResult(i), rows.Close()
 }
 {{ else }}
@@ -1078,6 +1087,9 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 		}
 		result = append(result, v)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	if err := rows.Close(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 6767b9514e912067b4f77872d986773bb013b1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:55 +0000
Subject: [PATCH 15/58] fix: debug format of statements misplaces arguments or
 panics

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 192 +++++++++++++++++--------
 1 file changed, 131 insertions(+), 61 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 8de37f4..61828ab 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1311,7 +1311,7 @@ func (s *SqlStmt) Vars(values []any) string {
 	noOfLen := len(values)
 	s.args = append(s.args, values...)
 	{{ if isStaticVar -}}
-	return "(" + strings.Repeat(",{{ varRune }}", noOfLen)[1:] + ")"
+	return "(" + strings.TrimPrefix(strings.Repeat(",{{ varRune }}", noOfLen), ",") + ")"
 	{{ else -}}
 	buf := new(strings.Builder)
 	buf.WriteByte('(')
@@ -1363,36 +1363,39 @@ func (s *SqlStmt) Format(f fmt.State, verb rune) {
 	}
 
 	var (
-		args = make([]any, len(s.args))
-		idx  int
-		i    = 1
+		buf = make([]byte, 0, len(str)*2)
+		pos int
 	)
-
-	copy(args, s.args)
-
-	for {
-		{{ if isStaticVar -}}
-		idx = strings.Index(str, "?")
-		{{ else -}}
-		placeholder := wrapVar(i)
-		idx = strings.Index(str, placeholder)
-		{{ end -}}
-		if idx < 0 {
-			f.Write(unsafe.Slice(unsafe.StringData(str), len(str)))
-			break
+	for i := 0; i < len(str); {
+		if n := skipText(str[i:]); n > 0 {
+			buf = append(buf, str[i:i+n]...)
+			i += n
+			continue
 		}
-
-		f.Write([]byte(str[:idx]))
-		v := strf(args[0])
-		f.Write(unsafe.Slice(unsafe.StringData(v), len(v)))
+		n := 0
 		{{ if isStaticVar -}}
-		str = str[idx+1:]
+		if strings.HasPrefix(str[i:], {{ quote varRune }}) {
+			pos++
+			n = len({{ quote varRune }})
+		}
 		{{ else -}}
-		str = str[idx+len(placeholder):]
+		if strings.HasPrefix(str[i:], {{ quote varRune }}) && (i == 0 || !isIdentByte(str[i-1])) {
+			n = len({{ quote varRune }})
+			for i+n < len(str) && str[i+n] >= '0' && str[i+n] <= '9' {
+				n++
+			}
+			pos, _ = strconv.Atoi(str[i+len({{ quote varRune }}):i+n])
+		}
 		{{ end -}}
-		args = args[1:]
-		i++
+		if n > 0 && pos > 0 && pos <= len(s.args) {
+			buf = append(buf, strf(s.args[pos-1])...)
+		} else {
+			n = max(n, 1)
+			buf = append(buf, str[i:i+n]...)
+		}
+		i += n
 	}
+	f.Write(buf)
 }
 
 func (s *SqlStmt) Reset() {
@@ -1475,54 +1478,121 @@ func wrapVar(i int) string {
 }
 {{ end }}
 
+// skipText returns the length of the string literal, quoted identifier or
+// comment that s starts with, or zero. There are no placeholders in these.
+func skipText(s string) int {
+	switch {
+	case strings.HasPrefix(s, "--"):
+		if i := strings.IndexByte(s, '\n'); i >= 0 {
+			return i
+		}
+		return len(s)
+	case strings.HasPrefix(s, "/*"):
+		if i := strings.Index(s[2:], "*/"); i >= 0 {
+			return i + 4
+		}
+		return len(s)
+	}
+	i, escape := 1, {{ eq driver "mysql" }}
+	{{ if eq driver "postgres" -}}
+	if len(s) > 1 && (s[0] == 'E' || s[0] == 'e') && s[1] == '\'' {
+		i, escape = 2, true
+	}
+	{{ end -}}
+	end := s[i-1]
+	if end != '\'' && end != '"'{{ if ne driver "postgres" }} && end != '`'{{ end }} {
+		return 0
+	}
+	for ; i < len(s); i++ {
+		if s[i] == end {
+			return i + 1
+		}
+		if escape && end != '`' && s[i] == '\\' {
+			i++
+		}
+	}
+	return len(s)
+}
+
+{{ if not isStaticVar -}}
+func isIdentByte(c byte) bool {
+	return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
+}
+{{ end }}
+
+// quote returns the string literal of s.
+func quote(s string) string {
+	{{ if eq driver "postgres" -}}
+	return pgutil.Quote(s)
+	{{ else if eq driver "mysql" -}}
+	return "'" + strings.NewReplacer("'", "''", "\\", "\\\\").Replace(s) + "'"
+	{{ else -}}
+	return "'" + strings.ReplaceAll(s, "'", "''") + "'"
+	{{ end -}}
+}
+
+func formatFloat(f float64) string {
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		return quote(strconv.FormatFloat(f, 'g', -1, 64))
+	}
+	return strconv.FormatFloat(f, 'g', -1, 64)
+}
+
+// strf returns the literal of the value.
 func strf(v any) string {
 	switch vi := v.(type) {
 	case nil:
 		return "NULL"
 	case string:
-	{{ if eq driver "postgres" -}}
-		return pgutil.Quote(vi)
-	{{ else -}}
-		return strconv.Quote(vi)
-	{{ end -}}
+		return quote(vi)
 	case []byte:
-	{{ if eq driver "postgres" -}}
-		return pgutil.Quote(unsafe.String(unsafe.SliceData(vi), len(vi)))
-	{{ else -}}
-		return strconv.Quote(unsafe.String(unsafe.SliceData(vi), len(vi)))
-	{{ end -}}
+		if vi == nil {
+			return "NULL"
+		}
+		return quote(string(vi))
 	case bool:
 		return strconv.FormatBool(vi)
 	case int64:
 		return strconv.FormatInt(vi, 10)
 	case float64:
-		return strconv.FormatFloat(vi, 'f', 10, 64)
+		return formatFloat(vi)
 	case time.Time:
-		return strconv.Quote(vi.Format(time.RFC3339))
-	case sql.RawBytes:
-		return unsafe.String(unsafe.SliceData(vi), len(vi))
+		return quote(vi.Format(time.RFC3339Nano))
 	case driver.Valuer:
-		val, _ := vi.Value()
-		return strf(val)
-	default:
-		vt := reflect.ValueOf(v)
-		switch vt.Kind() {
-		case reflect.String:
-		{{ if eq driver "postgres" -}}
-			return pgutil.Quote(vt.String())
-		{{ else -}}
-			return strconv.Quote(vt.String())
-		{{ end -}}
-		case reflect.Bool:
-			return strconv.FormatBool(vt.Bool())
-		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-			return strconv.FormatInt(vt.Int(), 10)
-		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			return strconv.FormatUint(vt.Uint(), 10)
-		case reflect.Float32, reflect.Float64:
-			return strconv.FormatFloat(vt.Float(), 'f', 10, 64)
-		default:
-			panic("unreachable")
+		rv := reflect.ValueOf(v)
+		if rv.Kind() == reflect.Pointer && rv.IsNil() && rv.Type().Elem().Implements(reflect.TypeFor[driver.Valuer]()) {
+			return "NULL"
+		}
+		val, err := vi.Value()
+		if err != nil {
+			return quote(err.Error())
 		}
+		if _, ok := val.(driver.Valuer); ok {
+			return quote(fmt.Sprint(val))
+		}
+		return strf(val)
 	}
-}
\ No newline at end of file
+	vt := reflect.ValueOf(v)
+	switch vt.Kind() {
+	case reflect.String:
+		return quote(vt.String())
+	case reflect.Bool:
+		return strconv.FormatBool(vt.Bool())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return strconv.FormatInt(vt.Int(), 10)
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return strconv.FormatUint(vt.Uint(), 10)
+	case reflect.Float32, reflect.Float64:
+		return formatFloat(vt.Float())
+	case reflect.Pointer:
+		if vt.IsNil() {
+			return "NULL"
+		}
+		return strf(vt.Elem().Interface())
+	case reflect.Slice:
+		if vt.Type().Elem().Kind() == reflect.Uint8 {
+			return strf(vt.Bytes())
+		}
+	}
+	return quote(fmt.Sprint(v))
+}
-- 
2.43.0


From cc1405d346e96c929f37e24bb44e79f361ea8569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:56 +0000
Subject: [PATCH 16/58] fix: update by key of a model with nothing but its key
 or readonly columns

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 61828ab..2be0638 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -702,6 +702,9 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 	case sequel.PrimaryKeyer:
 		pkName, _, pk := v.PK()
 		columns, values := updateColumns(model, pkName)
+		if len(columns) == 0 {
+			columns, values = []string{pkName}, []any{pk}
+		}
 		{{ if isStaticVar -}}
 		return db.ExecContext(ctx, "UPDATE "+DbTable(model)+" SET "+strings.Join(columns, " = {{ quoteVar 1 }},")+" = {{ quoteVar 1 }} WHERE "+pkName+" = {{ quoteVar 1 }};", append(values, pk)...)
 		{{ else -}}
@@ -718,6 +721,9 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 	case sequel.CompositeKeyer:
 		keyNames, _, keys := v.CompositeKey()
 		columns, values := updateColumns(model, keyNames...)
+		if len(columns) == 0 {
+			columns, values = keyNames, slices.Clone(keys)
+		}
 		{{ if isStaticVar -}}
 		query := "UPDATE " + DbTable(model) + " SET " +strings.Join(columns, " = {{ quoteVar 1 }},")+" = {{ quoteVar 1 }} WHERE (" + strings.Join(keyNames, ",") + ") = ({{ quoteVar 1 }}" + strings.Repeat(",{{ quoteVar 1 }}", len(keyNames)-1)+");"
 		return db.ExecContext(ctx, query, append(values, keys...)...)
-- 
2.43.0


From 5378f7541f59e729cc66233b80af49c4609f28cc Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:12:25 +0000
Subject: [PATCH 17/58] fix: integers outside the range of the field are an
 error when scanned

A number handed over as int64 was truncated to the width of the field.
---
 sequel/encoding/int.go  | 3 +++
 sequel/encoding/uint.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sequel/encoding/int.go b/sequel/encoding/int.go
index a9120bc..47b7e36 100644
--- a/sequel/encoding/int.go
+++ b/sequel/encoding/int.go
@@ -79,6 +79,9 @@ func (i *signedIntScanner[T, Addr]) Scan(v any) error {
 		}
 	case int64:
 		val := T(vi)
+		if int64(val) != vi {
+			return fmt.Errorf(`sequel/encoding: value %d overflows %T`, vi, val)
+		}
 		switch any(i.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(i.addr)) = &val
diff --git a/sequel/encoding/uint.go b/sequel/encoding/uint.go
index 472420d..e714907 100644
--- a/sequel/encoding/uint.go
+++ b/sequel/encoding/uint.go
@@ -80,6 +80,9 @@ func (u *unsignedIntScanner[T, Addr]) Scan(v any) error {
 		}
 	case int64:
 		val := T(vi)
+		if vi < 0 || uint64(val) != uint64(vi) {
+			return fmt.Errorf(`sequel/encoding: value %d overflows %T`, vi, val)
+		}
 		switch any(u.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(u.addr)) = &val
-- 
2.43.0


From b06ab1fcd1d850742dee7e0b659a7ad46e1eff62 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:12:25 +0000
Subject: [PATCH 18/58] fix: numbers outside the range of float32 are an error
 when scanned

---
 sequel/encoding/float.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sequel/encoding/float.go b/sequel/encoding/float.go
index 5cadbb5..857324d 100644
--- a/sequel/encoding/float.go
+++ b/sequel/encoding/float.go
@@ -3,6 +3,7 @@ package encoding
 import (
 	"database/sql"
 	"fmt"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -52,6 +53,9 @@ func (f *float32Scanner[T, Addr]) Scan(v any) error {
 		}
 	case float64:
 		val := T(vi)
+		if math.IsInf(float64(val), 0) && !math.IsInf(vi, 0) {
+			return fmt.Errorf(`sequel/encoding: value %v overflows %T`, vi, val)
+		}
 		switch any(f.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(f.addr)) = &val
-- 
2.43.0


From 09ca01cb51b9867ba49cf2a10969a128df196101 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:12:25 +0000
Subject: [PATCH 19/58] fix: copy the bytes of a column, they belong to the
 driver

A []byte field shared the buffer of the driver, which is overwritten by the next row.
---
 sequel/encoding/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sequel/encoding/string.go b/sequel/encoding/string.go
index 572406e..21a7155 100644
--- a/sequel/encoding/string.go
+++ b/sequel/encoding/string.go
@@ -54,7 +54,8 @@ func (s *strScanner[T, Ptr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case []byte:
-		val := T(vi)
+		// The driver owns the memory, make a copy of it
+		val := T(string(vi))
 		switch any(s.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(s.addr)) = &val
-- 
2.43.0


From ff9aa4731988f798a856f4738465ce6b5ba5bc76 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:12:25 +0000
Subject: [PATCH 20/58] fix: scanning a byte or rune array replaces all of it

Shorter values left the old tail, null left a rune array as it was, and text was copied bytewise into runes.
---
 sequel/encoding/byte_array.go |  2 ++
 sequel/encoding/rune_array.go | 34 +++++++++++++++++-----------------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/sequel/encoding/byte_array.go b/sequel/encoding/byte_array.go
index 594943c..12601c2 100644
--- a/sequel/encoding/byte_array.go
+++ b/sequel/encoding/byte_array.go
@@ -31,6 +31,7 @@ func (s *byteArrScanner[T]) Scan(v any) error {
 		for i := range bytes {
 			s.v[i] = T(bytes[i])
 		}
+		clear(s.v[len(bytes):s.size])
 	case []byte:
 		if len(b) > s.size {
 			return fmt.Errorf(`sequel/encoding: byte array overflow, should be %d, but it is %d`, s.size, len(b))
@@ -38,6 +39,7 @@ func (s *byteArrScanner[T]) Scan(v any) error {
 		for i := range b {
 			s.v[i] = T(b[i])
 		}
+		clear(s.v[len(b):s.size])
 		return nil
 	default:
 		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for [%d]~byte`, b, s.size)
diff --git a/sequel/encoding/rune_array.go b/sequel/encoding/rune_array.go
index 46b75f8..da04d51 100644
--- a/sequel/encoding/rune_array.go
+++ b/sequel/encoding/rune_array.go
@@ -18,28 +18,28 @@ func RuneArrayScanner[T ~rune](v []T, size int) sql.Scanner {
 func (s *runeArrScanner[T]) Scan(v any) error {
 	switch vi := v.(type) {
 	case nil:
-		s.v = make([]T, s.size)
+		clear(s.v[:s.size])
 		return nil
 	case []byte:
-		i := int(0)
-		for len(vi) > 0 {
-			if i >= s.size {
-				return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, i)
-			}
-			r, size := utf8.DecodeRune(vi)
-			s.v[i] = T(r)
-			i++
-			vi = vi[size:]
-		}
+		return s.scanString(string(vi))
 	case string:
-		if len(vi) > s.size {
-			return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, len(vi))
-		}
-		for i := range vi {
-			s.v[i] = T(vi[i])
-		}
+		return s.scanString(vi)
 	default:
 		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for [%d]~rune`, vi, s.size)
 	}
+}
+
+func (s *runeArrScanner[T]) scanString(str string) error {
+	if !utf8.ValidString(str) {
+		return fmt.Errorf(`sequel/encoding: invalid UTF-8 text for [%d]~rune`, s.size)
+	}
+	runes := []rune(str)
+	if len(runes) > s.size {
+		return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, len(runes))
+	}
+	for i := range runes {
+		s.v[i] = T(runes[i])
+	}
+	clear(s.v[len(runes):s.size])
 	return nil
 }
-- 
2.43.0


From 55d85cf1a1dcf01aae1c2169e4e59914c8c4e556 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:12:25 +0000
Subject: [PATCH 21/58] fix: scanning JSON replaces the previous value

Keys and fields of the previous value survived, and text after the value was ignored.
---
 sequel/encoding/json.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sequel/encoding/json.go b/sequel/encoding/json.go
index f887a95..e60614f 100644
--- a/sequel/encoding/json.go
+++ b/sequel/encoding/json.go
@@ -45,9 +45,7 @@ func JSONScanner[T any, Addr interface{ *T }](addr Addr) sql.Scanner {
 func (j *jsonScanner[T, Addr]) Scan(v any) error {
 	switch vi := v.(type) {
 	case nil:
-		switch vj := any(j.v).(type) {
-		case json.Unmarshaler:
-			return vj.UnmarshalJSON(nil)
+		switch any(j.v).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(j.v)) = nil
 			return nil
@@ -59,12 +57,22 @@ func (j *jsonScanner[T, Addr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case string:
-		return json.NewDecoder(bytes.NewBufferString(vi)).Decode(j.v)
+		return j.scanBytes([]byte(vi))
 	case []byte:
-		return json.NewDecoder(bytes.NewBuffer(vi)).Decode(j.v)
+		return j.scanBytes(vi)
 	case json.RawMessage:
-		return json.NewDecoder(bytes.NewBuffer(vi)).Decode(j.v)
+		return j.scanBytes(vi)
 	default:
 		return fmt.Errorf(`sequel/encoding: invalid scan type for JSON, %T`, v)
 	}
 }
+
+// scanBytes decodes into a new value, so that nothing of the previous value survives.
+func (j *jsonScanner[T, Addr]) scanBytes(b []byte) error {
+	var val T
+	if err := json.Unmarshal(b, &val); err != nil {
+		return err
+	}
+	*(*T)(unsafe.Pointer(j.v)) = val
+	return nil
+}
-- 
2.43.0


From 1324dd0d5517c6bf642d74f9c3d1aa55883a8c32 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:13:17 +0000
Subject: [PATCH 22/58] fix: scanning into a pointer field allocates the value

Scanning a non-null column into a nil pointer of a type with Scan or UnmarshalText panicked,
and a pointer shared with another record was written through. A boolean is given as text, not as a control character.
---
 sequel/encoding/pointer.go | 106 ++++---------------------------------
 sequel/encoding/text.go    |  78 ++++++++-------------------
 2 files changed, 32 insertions(+), 152 deletions(-)

diff --git a/sequel/encoding/pointer.go b/sequel/encoding/pointer.go
index 5359745..de24f68 100644
--- a/sequel/encoding/pointer.go
+++ b/sequel/encoding/pointer.go
@@ -2,13 +2,6 @@ package encoding
 
 import (
 	"database/sql"
-	"encoding"
-	"encoding/binary"
-	"fmt"
-	"math"
-	"strconv"
-	"time"
-	"unsafe"
 )
 
 func PtrScanner[T any, Ptr interface {
@@ -26,96 +19,15 @@ type addrOfPtr[T any, Ptr interface {
 }
 
 func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
-	switch vt := v.(type) {
-	case nil:
-		*(*Ptr)(unsafe.Pointer(p.v)) = nil
+	if v == nil {
+		*p.v = nil
 		return nil
-	case string:
-		switch vi := any(*p.v).(type) {
-		case sql.Scanner:
-			return vi.Scan(vt)
-		case encoding.TextUnmarshaler:
-			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(vt), len(vt)))
-		case encoding.BinaryUnmarshaler:
-			return vi.UnmarshalBinary(unsafe.Slice(unsafe.StringData(vt), len(vt)))
-		default:
-			return fmt.Errorf(`sql/encoding: unsupported %T`, vi)
-		}
-	case []byte:
-		switch vi := any(*p.v).(type) {
-		case sql.Scanner:
-			return vi.Scan(vt)
-		case encoding.TextUnmarshaler:
-			return vi.UnmarshalText(vt)
-		case encoding.BinaryUnmarshaler:
-			return vi.UnmarshalBinary(vt)
-		default:
-			return fmt.Errorf(`sql/encoding: unsupported %T`, vi)
-		}
-	case bool:
-		switch vi := any(*p.v).(type) {
-		case sql.Scanner:
-			return vi.Scan(vt)
-		case encoding.TextUnmarshaler:
-			val := strconv.FormatBool(vt)
-			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
-		case encoding.BinaryUnmarshaler:
-			if vt {
-				return vi.UnmarshalBinary([]byte{1})
-			}
-			return vi.UnmarshalBinary([]byte{0})
-		default:
-			return fmt.Errorf(`sql/encoding: unsupported %T`, vi)
-		}
-	case int64:
-		switch vi := any(*p.v).(type) {
-		case sql.Scanner:
-			return vi.Scan(vt)
-		case encoding.TextUnmarshaler:
-			val := strconv.FormatInt(vt, 10)
-			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
-		case encoding.BinaryUnmarshaler:
-			b := make([]byte, 8)
-			binary.LittleEndian.PutUint64(b, uint64(vt))
-			return vi.UnmarshalBinary(b)
-		default:
-			return fmt.Errorf(`sql/encoding: unsupported %T`, vi)
-		}
-	case float64:
-		switch vi := any(*p.v).(type) {
-		case sql.Scanner:
-			return vi.Scan(vt)
-		case encoding.TextUnmarshaler:
-			b := make([]byte, 8)
-			binary.LittleEndian.PutUint64(b, math.Float64bits(vt))
-			return vi.UnmarshalText(b)
-		case encoding.BinaryUnmarshaler:
-			b := make([]byte, 8)
-			binary.LittleEndian.PutUint64(b, math.Float64bits(vt))
-			return vi.UnmarshalBinary(b)
-		default:
-			return fmt.Errorf(`sql/encoding: unsupported %T`, vi)
-		}
-	case time.Time:
-		switch vi := any(*p.v).(type) {
-		case sql.Scanner:
-			return vi.Scan(vt)
-		case encoding.TextUnmarshaler:
-			b, err := vt.MarshalText()
-			if err != nil {
-				return err
-			}
-			return vi.UnmarshalText(b)
-		case encoding.BinaryUnmarshaler:
-			b, err := vt.MarshalBinary()
-			if err != nil {
-				return err
-			}
-			return vi.UnmarshalBinary(b)
-		default:
-			return fmt.Errorf(`sql/encoding: unsupported %T`, vi)
-		}
-	default:
-		return fmt.Errorf(`sql/encoding: unsupported %T`, vt)
 	}
+	// Scan into a new value, the pointer may be nil or shared
+	ptr := Ptr(new(T))
+	if err := ptr.Scan(v); err != nil {
+		return err
+	}
+	*p.v = ptr
+	return nil
 }
diff --git a/sequel/encoding/text.go b/sequel/encoding/text.go
index 28afc43..76c2e87 100644
--- a/sequel/encoding/text.go
+++ b/sequel/encoding/text.go
@@ -51,71 +51,39 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case string:
-		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(vt), len(vt)))
-		case Ptr:
-			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(vt), len(vt)))
-		default:
-			panic("unreachable")
-		}
+		return t.unmarshal(unsafe.Slice(unsafe.StringData(vt), len(vt)))
 	case []byte:
-		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(vt)
-		case Ptr:
-			return vi.UnmarshalText(vt)
-		default:
-			panic("unreachable")
-		}
+		return t.unmarshal(vt)
 	case bool:
-		b := []byte{0}
-		if vt {
-			b = []byte{1}
-		}
-		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(b)
-		case Ptr:
-			return vi.UnmarshalText(b)
-		default:
-			panic("unreachable")
-		}
+		return t.unmarshal(strconv.AppendBool(nil, vt))
 	case int64:
-		val := strconv.FormatInt(vt, 10)
-		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
-		case Ptr:
-			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
-		default:
-			panic("unreachable")
-		}
+		return t.unmarshal(strconv.AppendInt(nil, vt, 10))
 	case float64:
-		val := strconv.FormatFloat(vt, 'f', -1, 64)
-		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
-		case Ptr:
-			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
-
-		default:
-			panic("unreachable")
-		}
+		return t.unmarshal(strconv.AppendFloat(nil, vt, 'f', -1, 64))
 	case time.Time:
 		b, err := vt.MarshalText()
 		if err != nil {
 			return err
 		}
-		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(b)
-		case Ptr:
-			return vi.UnmarshalText(b)
-		default:
-			panic("unreachable")
-		}
+		return t.unmarshal(b)
 	default:
 		return fmt.Errorf(`sequel/encoding: unable to TextUnmarshal %T`, vt)
 	}
 }
+
+// unmarshal decodes the text into a new value and assigns it.
+func (t *textScanner[T, Ptr, Addr]) unmarshal(b []byte) error {
+	val := new(T)
+	if err := Ptr(val).UnmarshalText(b); err != nil {
+		return err
+	}
+	switch any(t.v).(type) {
+	case **T:
+		*(**T)(unsafe.Pointer(t.v)) = val
+	case *T:
+		*(*T)(unsafe.Pointer(t.v)) = *val
+	default:
+		panic("unreachable")
+	}
+	return nil
+}
-- 
2.43.0


From aeb51b40d4b24354e8927f0e9af181d0379bd33a Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:13:17 +0000
Subject: [PATCH 23/58] fix: null is the zero value of a binary column

---
 sequel/types/binary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sequel/types/binary.go b/sequel/types/binary.go
index 8a161f1..8f72c87 100644
--- a/sequel/types/binary.go
+++ b/sequel/types/binary.go
@@ -39,6 +39,10 @@ func BinaryUnmarshaler[T any, Ptr interface {
 
 func (b binaryUnmarshaler[T, Ptr]) Scan(v any) error {
 	switch vi := v.(type) {
+	case nil:
+		var val T
+		*b.v = val
+		return nil
 	case []byte:
 		return b.v.UnmarshalBinary(vi)
 	default:
-- 
2.43.0


From 42c7cc38ffd4f0c0205e94b697191bdfc427b405 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:13:17 +0000
Subject: [PATCH 24/58] fix: elements of PostgreSQL integer arrays are checked
 against the element type

Elements were parsed as int64 and truncated; large unsigned elements could not be read back.
---
 sequel/driver/postgres/pgtype/int_array.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/sequel/driver/postgres/pgtype/int_array.go b/sequel/driver/postgres/pgtype/int_array.go
index d0593aa..465f6b8 100644
--- a/sequel/driver/postgres/pgtype/int_array.go
+++ b/sequel/driver/postgres/pgtype/int_array.go
@@ -77,11 +77,21 @@ func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 	} else {
 		b := make([]T, len(elems))
 		for i, v := range elems {
-			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, 64)
-			if err != nil {
-				return fmt.Errorf("pgtype: parsing array element index %d: %v", i, err)
+			str := unsafe.String(unsafe.SliceData(v), len(v))
+			bitSize := int(unsafe.Sizeof(b[i])) * 8
+			if ^T(0) < 0 {
+				n, err := strconv.ParseInt(str, 10, bitSize)
+				if err != nil {
+					return fmt.Errorf("pgtype: parsing array element index %d: %v", i, err)
+				}
+				b[i] = T(n)
+			} else {
+				n, err := strconv.ParseUint(str, 10, bitSize)
+				if err != nil {
+					return fmt.Errorf("pgtype: parsing array element index %d: %v", i, err)
+				}
+				b[i] = T(n)
 			}
-			b[i] = T(n)
 		}
 		*a = b
 	}
-- 
2.43.0


From 42ab6569560dd5008c2cf6853c61c3fa3e4dc12d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:13:58 +0000
Subject: [PATCH 25/58] fix: JSON list columns are written and read as JSON

Booleans were written as t and f, control characters were not escaped, escapes and the blanks
that MySQL puts between elements were not understood, and integers were truncated to the element type.
---
 sequel/sqltype/bool_slice.go   |  33 +++----
 sequel/sqltype/float_slice.go  |  31 ++++--
 sequel/sqltype/int_slice.go    |   4 +-
 sequel/sqltype/string_slice.go | 171 ++++++++-------------------------
 sequel/sqltype/uint_slice.go   |   2 +-
 5 files changed, 75 insertions(+), 166 deletions(-)

diff --git a/sequel/sqltype/bool_slice.go b/sequel/sqltype/bool_slice.go
index 79c22d5..6758bdc 100644
--- a/sequel/sqltype/bool_slice.go
+++ b/sequel/sqltype/bool_slice.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"database/sql/driver"
 	"fmt"
+	"strconv"
 	"unsafe"
 )
 
@@ -22,21 +23,16 @@ func (a BoolSlice[T]) Value() (driver.Value, error) {
 	}
 
 	if n := len(a); n > 0 {
-		// There will be exactly two curly brackets, N bytes of values,
+		// There will be exactly two square brackets, N boolean literals,
 		// and N-1 bytes of delimiters.
-		b := make([]byte, 1+2*n)
-
-		for i := 0; i < n; i++ {
-			b[2*i] = ','
-			if a[i] {
-				b[1+2*i] = 't'
-			} else {
-				b[1+2*i] = 'f'
-			}
-		}
-
+		b := make([]byte, 1, 1+6*n)
 		b[0] = '['
-		b[2*n] = ']'
+		b = strconv.AppendBool(b, (bool)(a[0]))
+		for i := 1; i < n; i++ {
+			b = append(b, ',')
+			b = strconv.AppendBool(b, (bool)(a[i]))
+		}
+		b = append(b, ']')
 		return unsafe.String(unsafe.SliceData(b), len(b)), nil
 	}
 	return "[]", nil
@@ -57,7 +53,7 @@ func (a *BoolSlice[T]) Scan(src interface{}) error {
 }
 
 func (a *BoolSlice[T]) scanBytes(src []byte) error {
-	elems, err := scanLinearArray(src, []byte{','}, "BoolSlice")
+	elems, err := scanLinearArray(src, "BoolSlice")
 	if err != nil {
 		return err
 	}
@@ -66,13 +62,10 @@ func (a *BoolSlice[T]) scanBytes(src []byte) error {
 	} else {
 		b := make(BoolSlice[T], len(elems))
 		for i, v := range elems {
-			if len(v) != 1 {
-				return fmt.Errorf("sqltype: could not parse boolean array index %d: invalid boolean %q", i, v)
-			}
-			switch v[0] {
-			case 't':
+			switch (string)(v) {
+			case "true":
 				b[i] = true
-			case 'f':
+			case "false":
 				b[i] = false
 			default:
 				return fmt.Errorf("sqltype: could not parse boolean array index %d: invalid boolean %q", i, v)
diff --git a/sequel/sqltype/float_slice.go b/sequel/sqltype/float_slice.go
index 0595fbe..3120710 100644
--- a/sequel/sqltype/float_slice.go
+++ b/sequel/sqltype/float_slice.go
@@ -3,6 +3,7 @@ package sqltype
 import (
 	"database/sql/driver"
 	"fmt"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -23,10 +24,15 @@ func (a Float32Slice[T]) Value() (driver.Value, error) {
 		b := make([]byte, 1, 1+2*n)
 		b[0] = '['
 
-		b = strconv.AppendFloat(b, (float64)(a[0]), 'f', -1, 32)
-		for i := 1; i < n; i++ {
-			b = append(b, ',')
-			b = strconv.AppendFloat(b, (float64)(a[i]), 'f', -1, 32)
+		for i := 0; i < n; i++ {
+			f := (float64)(a[i])
+			if math.IsNaN(f) || math.IsInf(f, 0) {
+				return nil, fmt.Errorf("sqltype: %v at index %d is not a JSON number", f, i)
+			}
+			if i > 0 {
+				b = append(b, ',')
+			}
+			b = strconv.AppendFloat(b, f, 'f', -1, 32)
 		}
 		b = append(b, ']')
 		return unsafe.String(unsafe.SliceData(b), len(b)), nil
@@ -49,7 +55,7 @@ func (a *Float32Slice[T]) Scan(src interface{}) error {
 }
 
 func (a *Float32Slice[T]) scanBytes(src []byte) error {
-	elems, err := scanLinearArray(src, []byte{','}, "Float32Slice")
+	elems, err := scanLinearArray(src, "Float32Slice")
 	if err != nil {
 		return err
 	}
@@ -85,10 +91,15 @@ func (a Float64Slice[T]) Value() (driver.Value, error) {
 		b := make([]byte, 1, 1+2*n)
 		b[0] = '['
 
-		b = strconv.AppendFloat(b, (float64)(a[0]), 'f', -1, 64)
-		for i := 1; i < n; i++ {
-			b = append(b, ',')
-			b = strconv.AppendFloat(b, (float64)(a[i]), 'f', -1, 64)
+		for i := 0; i < n; i++ {
+			f := (float64)(a[i])
+			if math.IsNaN(f) || math.IsInf(f, 0) {
+				return nil, fmt.Errorf("sqltype: %v at index %d is not a JSON number", f, i)
+			}
+			if i > 0 {
+				b = append(b, ',')
+			}
+			b = strconv.AppendFloat(b, f, 'f', -1, 64)
 		}
 
 		return string(append(b, ']')), nil
@@ -112,7 +123,7 @@ func (a *Float64Slice[T]) Scan(src interface{}) error {
 }
 
 func (a *Float64Slice[T]) scanBytes(src []byte) error {
-	elems, err := scanLinearArray(src, []byte{','}, "Float64Slice")
+	elems, err := scanLinearArray(src, "Float64Slice")
 	if err != nil {
 		return err
 	}
diff --git a/sequel/sqltype/int_slice.go b/sequel/sqltype/int_slice.go
index 932de30..e7843c6 100644
--- a/sequel/sqltype/int_slice.go
+++ b/sequel/sqltype/int_slice.go
@@ -68,7 +68,7 @@ func (a *Int64Slice[T]) Scan(src any) error {
 
 func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](a *Arr, src []byte, t string) error {
-	elems, err := scanLinearArray(src, []byte{','}, t)
+	elems, err := scanLinearArray(src, t)
 	if err != nil {
 		return err
 	}
@@ -77,7 +77,7 @@ func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 	} else {
 		b := make([]T, len(elems))
 		for i, v := range elems {
-			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, 64)
+			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, int(unsafe.Sizeof(b[i]))*8)
 			if err != nil {
 				return fmt.Errorf("sqltype: parsing array element index %d: %v", i, err)
 			}
diff --git a/sequel/sqltype/string_slice.go b/sequel/sqltype/string_slice.go
index 38544e1..9000b16 100644
--- a/sequel/sqltype/string_slice.go
+++ b/sequel/sqltype/string_slice.go
@@ -3,8 +3,9 @@ package sqltype
 import (
 	"bytes"
 	"database/sql/driver"
+	"encoding/json"
 	"fmt"
-	"strings"
+	"unicode/utf8"
 	"unsafe"
 )
 
@@ -23,10 +24,14 @@ func (a StringSlice[T]) Value() (driver.Value, error) {
 		b := make([]byte, 1, 1+3*n)
 		b[0] = '['
 
-		b = appendArrayQuotedBytes(b, []byte(a[0]))
-		for i := 1; i < n; i++ {
-			b = append(b, ',')
-			b = appendArrayQuotedBytes(b, []byte(a[i]))
+		for i := 0; i < n; i++ {
+			if i > 0 {
+				b = append(b, ',')
+			}
+			var err error
+			if b, err = appendQuoted(b, (string)(a[i])); err != nil {
+				return nil, err
+			}
 		}
 		b = append(b, ']')
 		return unsafe.String(unsafe.SliceData(b), len(b)), nil
@@ -49,7 +54,7 @@ func (a *StringSlice[T]) Scan(src any) error {
 }
 
 func (a *StringSlice[T]) scanBytes(src []byte) error {
-	elems, err := scanLinearArray(src, []byte{','}, "StringArray")
+	elems, err := scanLinearArray(src, "StringSlice")
 	if err != nil {
 		return err
 	}
@@ -58,145 +63,45 @@ func (a *StringSlice[T]) scanBytes(src []byte) error {
 	} else {
 		b := make(StringSlice[T], len(elems))
 		for i, v := range elems {
-			if v == nil {
-				return fmt.Errorf("sqltype: parsing array element index %d: cannot convert nil to string", i)
+			if v[0] != '"' {
+				return fmt.Errorf("sqltype: parsing array element index %d: cannot convert %s to string", i, v)
 			}
-			b[i] = T(v)
+			var str string
+			if err := json.Unmarshal(v, &str); err != nil {
+				return fmt.Errorf("sqltype: parsing array element index %d: %v", i, err)
+			}
+			b[i] = T(str)
 		}
 		*a = b
 	}
 	return nil
 }
 
-func parseArray(src, del []byte) (dims []int, elems [][]byte, err error) {
-	var depth, i int
-
-	if len(src) < 1 || src[0] != '[' {
-		return nil, nil, fmt.Errorf("sqltype: unable to parse array; expected %q at offset %d", ']', 0)
+// scanLinearArray splits a JSON array into its elements.
+func scanLinearArray(src []byte, typ string) ([]json.RawMessage, error) {
+	if !utf8.Valid(src) {
+		return nil, fmt.Errorf("sqltype: invalid UTF-8 in %s", typ)
 	}
-
-Open:
-	for i < len(src) {
-		switch src[i] {
-		case '[':
-			depth++
-			i++
-		case ']':
-			elems = make([][]byte, 0)
-			goto Close
-		default:
-			break Open
-		}
+	var elems []json.RawMessage
+	if err := json.Unmarshal(src, &elems); err != nil {
+		return nil, fmt.Errorf("sqltype: unable to parse %s: %w", typ, err)
 	}
-	dims = make([]int, i)
-
-Element:
-	for i < len(src) {
-		switch src[i] {
-		case '[':
-			if depth == len(dims) {
-				break Element
-			}
-			depth++
-			dims[depth-1] = 0
-			i++
-		case '"':
-			var elem = []byte{}
-			var escape bool
-			for i++; i < len(src); i++ {
-				if escape {
-					elem = append(elem, src[i])
-					escape = false
-				} else {
-					switch src[i] {
-					default:
-						elem = append(elem, src[i])
-					case '\\':
-						escape = true
-					case '"':
-						elems = append(elems, elem)
-						i++
-						break Element
-					}
-				}
-			}
-		default:
-			for start := i; i < len(src); i++ {
-				if bytes.HasPrefix(src[i:], del) || src[i] == ']' {
-					elem := src[start:i]
-					if len(elem) == 0 {
-						return nil, nil, fmt.Errorf("sqltype: unable to parse array; unexpected %q at offset %d", src[i], i)
-					}
-					if bytes.Equal(elem, []byte("NULL")) {
-						elem = nil
-					}
-					elems = append(elems, elem)
-					break Element
-				}
-			}
-		}
+	if elems == nil {
+		return nil, fmt.Errorf("sqltype: cannot convert null to %s", typ)
 	}
-
-	for i < len(src) {
-		if bytes.HasPrefix(src[i:], del) && depth > 0 {
-			dims[depth-1]++
-			i += len(del)
-			goto Element
-		} else if src[i] == ']' && depth > 0 {
-			dims[depth-1]++
-			depth--
-			i++
-		} else {
-			return nil, nil, fmt.Errorf("sqltype: unable to parse array; unexpected %q at offset %d", src[i], i)
-		}
-	}
-
-Close:
-	for i < len(src) {
-		if src[i] == ']' && depth > 0 {
-			depth--
-			i++
-		} else {
-			return nil, nil, fmt.Errorf("sqltype: unable to parse array; unexpected %q at offset %d", src[i], i)
-		}
-	}
-	if depth > 0 {
-		err = fmt.Errorf("sqltype: unable to parse array; expected %q at offset %d", ']', i)
-	}
-	if err == nil {
-		for _, d := range dims {
-			if (len(elems) % d) != 0 {
-				err = fmt.Errorf("sqltype: multidimensional arrays must have elements with matching dimensions")
-			}
-		}
-	}
-	return
+	return elems, nil
 }
 
-func scanLinearArray(src, del []byte, typ string) (elems [][]byte, err error) {
-	dims, elems, err := parseArray(src, del)
-	if err != nil {
-		return nil, err
-	}
-	if len(dims) > 1 {
-		return nil, fmt.Errorf("pgtype: cannot convert ARRAY%s to %s", strings.Replace(fmt.Sprint(dims), " ", "][", -1), typ)
+// appendQuoted appends a JSON string.
+func appendQuoted(b []byte, v string) ([]byte, error) {
+	if !utf8.ValidString(v) {
+		return nil, fmt.Errorf("sqltype: invalid UTF-8 in string %q", v)
 	}
-	return elems, err
-}
-
-func appendArrayQuotedBytes(b, v []byte) []byte {
-	b = append(b, '"')
-	for {
-		i := bytes.IndexAny(v, `"\`)
-		if i < 0 {
-			b = append(b, v...)
-			break
-		}
-		if i > 0 {
-			b = append(b, v[:i]...)
-		}
-		b = append(b, '\\', v[i])
-		v = v[i+1:]
+	buf := new(bytes.Buffer)
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	if err := enc.Encode(v); err != nil {
+		return nil, err
 	}
-	return append(b, '"')
+	return append(b, bytes.TrimSuffix(buf.Bytes(), []byte{'\n'})...), nil
 }
diff --git a/sequel/sqltype/uint_slice.go b/sequel/sqltype/uint_slice.go
index f3bc999..a534542 100644
--- a/sequel/sqltype/uint_slice.go
+++ b/sequel/sqltype/uint_slice.go
@@ -68,7 +68,7 @@ func (a *Uint64Slice[T]) Scan(src any) error {
 }
 
 func scanUBytes[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](bitSize int, a *Arr, src []byte, t string) error {
-	elems, err := scanLinearArray(src, []byte{','}, t)
+	elems, err := scanLinearArray(src, t)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 8d001e66811dc1888a195505bea7adcdbecd4f75 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:13:58 +0000
Subject: [PATCH 26/58] fix: marshaled lists are JSON and keep their values

Strings were quoted as Go literals, floats without a precision lost their fraction and times their fraction of a second.
---
 sequel/encoding/marshaler.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/sequel/encoding/marshaler.go b/sequel/encoding/marshaler.go
index b7932bf..e2644d7 100644
--- a/sequel/encoding/marshaler.go
+++ b/sequel/encoding/marshaler.go
@@ -1,6 +1,7 @@
 package encoding
 
 import (
+	"encoding/json"
 	"strconv"
 	"time"
 
@@ -11,9 +12,9 @@ func MarshalStringSlice[V ~[]byte | ~string](list []V) string {
 	if n := len(list); n > 0 {
 		blr := strpool.AcquireString()
 		defer strpool.ReleaseString(blr)
-		blr.WriteString("[" + strconv.Quote((string)(list[0])))
+		blr.WriteString("[" + quoteJSON((string)(list[0])))
 		for i := 1; i < n; i++ {
-			blr.WriteString("," + strconv.Quote((string)(list[i])))
+			blr.WriteString("," + quoteJSON((string)(list[i])))
 		}
 		blr.WriteByte(']')
 		return blr.String()
@@ -21,6 +22,14 @@ func MarshalStringSlice[V ~[]byte | ~string](list []V) string {
 	return "[]"
 }
 
+func quoteJSON(str string) string {
+	b, err := json.Marshal(str)
+	if err != nil {
+		panic(err)
+	}
+	return string(b)
+}
+
 func MarshalIntSlice[V ~int | ~int8 | ~int16 | ~int32 | ~int64](list []V) string {
 	if n := len(list); n > 0 {
 		blr := strpool.AcquireString()
@@ -65,7 +74,7 @@ func MarshalBoolSlice[V ~bool](list []V) string {
 
 func MarshalFloat64List[V ~float64](list []V, prec ...int) string {
 	if n := len(list); n > 0 {
-		var p int
+		p := -1
 		if len(prec) > 0 {
 			p = prec[0]
 		}
@@ -85,9 +94,9 @@ func MarshalTimeList[V time.Time](list []V) string {
 	if n := len(list); n > 0 {
 		blr := strpool.AcquireString()
 		defer strpool.ReleaseString(blr)
-		blr.WriteString("[" + (time.Time)(list[0]).Format(strconv.Quote(time.RFC3339)))
+		blr.WriteString("[" + (time.Time)(list[0]).Format(strconv.Quote(time.RFC3339Nano)))
 		for i := 1; i < n; i++ {
-			blr.WriteString("," + (time.Time)(list[i]).Format(strconv.Quote(time.RFC3339)))
+			blr.WriteString("," + (time.Time)(list[i]).Format(strconv.Quote(time.RFC3339Nano)))
 		}
 		blr.WriteByte(']')
 		return blr.String()
-- 
2.43.0


From 0e55801b4d241505ebd39c1c1ad9e576e1b6be09 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:20:53 +0000
Subject: [PATCH 27/58] fix: unquoted PostgreSQL array elements hold no quotes,
 backslashes or braces

---
 sequel/driver/postgres/pgtype/array.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sequel/driver/postgres/pgtype/array.go b/sequel/driver/postgres/pgtype/array.go
index 69715f2..32582af 100644
--- a/sequel/driver/postgres/pgtype/array.go
+++ b/sequel/driver/postgres/pgtype/array.go
@@ -131,6 +131,9 @@ Element:
 					if len(elem) == 0 {
 						return nil, nil, fmt.Errorf("pgtype: unable to parse array; unexpected %q at offset %d", src[i], i)
 					}
+					if j := bytes.IndexAny(elem, `"\{`); j >= 0 {
+						return nil, nil, fmt.Errorf("pgtype: unable to parse array; unexpected %q at offset %d", elem[j], start+j)
+					}
 					if bytes.Equal(elem, []byte("NULL")) {
 						elem = nil
 					}
-- 
2.43.0


From c897247b4f8899c97603ce641ab9122218294d5e Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 28/58] fix: struct tags may be written as any string literal

---
 cmd/sqlgen/internal/compiler/parser.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 1ff95d0..8a25d83 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -9,6 +9,7 @@ import (
 	"reflect"
 	"regexp"
 	"sort"
+	"strconv"
 	"strings"
 
 	"golang.org/x/tools/go/packages"
@@ -179,10 +180,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				var tag reflect.StructTag
 				fi := f.t.Fields.List[i]
 				if fi.Tag != nil {
-					// Trim backtick
-					tag = reflect.StructTag(strings.TrimFunc(fi.Tag.Value, func(r rune) bool {
-						return r == '`'
-					}))
+					// The tag can be a raw or an interpreted string literal
+					str, err := strconv.Unquote(fi.Tag.Value)
+					if err != nil {
+						return nil, err
+					}
+					tag = reflect.StructTag(str)
 				}
 
 				// If the field is embedded struct
-- 
2.43.0


From 227f25faf33128561ac32b554a5523c04b96a7e5 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 29/58] fix: annotations belong to the struct they are written
 on

---
 cmd/sqlgen/internal/compiler/compiler.go |  1 -
 cmd/sqlgen/internal/compiler/parser.go   | 15 ++++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index 629a7b8..bb3d8c8 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -234,7 +234,6 @@ func (s *structField) fieldPaths() []*structField {
 type typeQueue struct {
 	idx  []int
 	prev *structField
-	doc  *ast.CommentGroup
 	t    *ast.StructType
 	pkg  *packages.Package
 }
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 8a25d83..81c4880 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -93,6 +93,11 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				if !objType.Exported() {
 					continue
 				}
+				// In a grouped declaration, every type has its own comment
+				doc := genDecl.Doc
+				if genDecl.Lparen.IsValid() {
+					doc = typeSpec.Doc
+				}
 				// There are 2 types we're interested in
 				// 1. struct (*ast.StructType)
 				// 2. Type Definition from external package (*ast.SelectorExpr)
@@ -103,7 +108,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				// ```
 				switch t := typeSpec.Type.(type) {
 				case *ast.StructType:
-					structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: genDecl.Doc, t: t, pkg: pkg})
+					structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: doc, t: t, pkg: pkg})
 
 				case *ast.SelectorExpr:
 					var (
@@ -130,7 +135,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					}
 
 					if v := assertAsPtr[ast.StructType](decl.Type); v != nil {
-						structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: genDecl.Doc, t: v, pkg: importPkg})
+						structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: doc, t: v, pkg: importPkg})
 					}
 
 				default:
@@ -162,7 +167,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		// Pop the first item for further inspection
 		s := structCaches[0]
 		// Struct queue, this is useful when handling embedded struct
-		q := []typeQueue{{t: s.t, doc: s.doc, pkg: s.pkg}}
+		q := []typeQueue{{t: s.t, pkg: s.pkg}}
 		structFields := make([]*structField, 0)
 
 		var f typeQueue
@@ -359,12 +364,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		pos := 0
 
 		if s.doc != nil {
-			comment := f.doc.Text()
+			comment := s.doc.Text()
 			if annotationRegexp.MatchString(comment) {
 				annotations := annotationRegexp.FindStringSubmatch(comment)
 				flags := strings.Split(annotations[1], ",")
 				for len(flags) > 0 {
-					switch flags[0] {
+					switch strings.TrimSpace(flags[0]) {
 					case "readonly":
 						table.Readonly = true
 					case "ignore":
-- 
2.43.0


From 809383250557d3e27225990a1cd05a146245fe9c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 30/58] fix: every package level struct of a grouped
 declaration is a model

---
 cmd/sqlgen/internal/compiler/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 81c4880..bcfb256 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -93,6 +93,10 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				if !objType.Exported() {
 					continue
 				}
+				// Nor in the types declared inside a function
+				if objType.Parent() != pkg.Types.Scope() {
+					continue
+				}
 				// In a grouped declaration, every type has its own comment
 				doc := genDecl.Doc
 				if genDecl.Lparen.IsValid() {
@@ -139,7 +143,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					}
 
 				default:
-					return true
+					continue
 				}
 			}
 			return true
-- 
2.43.0


From 091991a670fdfe7a1a3fd8f651e6bea57ef6bc9f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 31/58] fix: columns are in the order the fields are declared

---
 cmd/sqlgen/internal/compiler/parser.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index bcfb256..6e156d7 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"reflect"
 	"regexp"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -175,9 +176,13 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		structFields := make([]*structField, 0)
 
 		var f typeQueue
+		// Position of the next field in the struct being resolved,
+		// a single declaration may introduce more than one field
+		var pos int
 		// Resolve every field on the struct, including nested struct
 		for len(q) > 0 {
 			f = q[0]
+			pos = 0
 
 			// If the struct has empty field, just skip
 			if len(f.t.Fields.List) == 0 {
@@ -234,7 +239,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							ft := &structField{
 								name:  types.ExprString(vi),
 								t:     f.pkg.TypesInfo.TypeOf(fi.Type),
-								index: append(f.idx, i),
+								index: append(slices.Clone(f.idx), pos),
 								// paths:    append(f.paths, path),
 								exported: vi.IsExported(),
 								embedded: true,
@@ -244,11 +249,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							structFields = append(structFields, ft)
 
 							q = append(q, typeQueue{
-								idx:  append(f.idx, i),
+								idx:  ft.index,
 								prev: ft,
 								t:    t.Type.(*ast.StructType),
 								pkg:  f.pkg,
 							})
+							pos++
 							continue
 						case *ast.ArrayType:
 							continue
@@ -286,7 +292,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							ft := &structField{
 								name:     types.ExprString(vi.Sel),
 								t:        f.pkg.TypesInfo.TypeOf(fi.Type),
-								index:    append(f.idx, i),
+								index:    append(slices.Clone(f.idx), pos),
 								exported: vi.Sel.IsExported(),
 								embedded: true,
 								parent:   f.prev,
@@ -294,12 +300,13 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							}
 
 							q = append(q, typeQueue{
-								idx:  append(f.idx, i),
+								idx:  ft.index,
 								t:    st,
 								prev: ft,
 								pkg:  importPkg,
 							})
 							structFields = append(structFields, ft)
+							pos++
 						}
 						continue
 					}
@@ -329,15 +336,16 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					}
 				}
 
-				for j, n := range fi.Names {
+				for _, n := range fi.Names {
 					structFields = append(structFields, &structField{
 						name:     types.ExprString(n),
 						t:        f.pkg.TypesInfo.TypeOf(fi.Type),
-						index:    append(f.idx, i+j),
+						index:    append(slices.Clone(f.idx), pos),
 						exported: n.IsExported(),
 						parent:   f.prev,
 						tag:      tag,
 					})
+					pos++
 				}
 			}
 
@@ -365,7 +373,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 
 		// To store struct fields, to prevent field name collision
 		nameMap := make(map[string]struct{})
-		pos := 0
+		pos = 0
 
 		if s.doc != nil {
 			comment := s.doc.Text()
-- 
2.43.0


From 228cdf862fa746211a675f56a94392470d1e9bcd Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 32/58] fix: an embedded struct can be excluded

---
 cmd/sqlgen/internal/compiler/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 6e156d7..e30d6e4 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -205,6 +205,11 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				// If the field is embedded struct
 				// `Type` can be either *ast.Ident or *ast.SelectorExpr
 				if fi.Names == nil {
+					// If the embedded struct is excluded, so are its fields
+					if name, _, _ := strings.Cut(tag.Get(cfg.Tag), ","); strings.TrimSpace(name) == "-" {
+						continue
+					}
+
 					t := fi.Type
 
 					// If it's an embedded struct with pointer
-- 
2.43.0


From 5e65a1cdfed7687f447e450ce1365f5e37d03bb4 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 33/58] fix: tag options are case insensitive

---
 cmd/sqlgen/internal/compiler/tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sqlgen/internal/compiler/tag.go b/cmd/sqlgen/internal/compiler/tag.go
index af3bfa8..fb41242 100644
--- a/cmd/sqlgen/internal/compiler/tag.go
+++ b/cmd/sqlgen/internal/compiler/tag.go
@@ -37,7 +37,7 @@ func parseTag(tagVal []string) *structTag {
 			continue
 		}
 		paths := strings.SplitN(v, ":", 2)
-		tag.pos[paths[0]] = 0
+		tag.pos[strings.ToLower(strings.TrimSpace(paths[0]))] = 0
 	}
 	return &tag
 }
-- 
2.43.0


From bba60d4ff54d24c1e7f5124ec8b6df6facd2b429 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:46:44 +0000
Subject: [PATCH 34/58] fix: embedded structs are found however their type is
 named

---
 cmd/sqlgen/internal/compiler/parser.go | 134 ++++++++++---------------
 1 file changed, 54 insertions(+), 80 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index e30d6e4..b8ef451 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -218,99 +218,27 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 						t = ut.X
 					}
 
-					switch vi := t.(type) {
-					// Local struct
-					case *ast.Ident:
-						// Object is nil when it's not found in current scope (different file)
-						obj := vi.Obj
-						if vi.Obj == nil {
-							// Since it's a local struct, we will find it in the local module files
-							for i := range f.pkg.Syntax {
-								obj = f.pkg.Syntax[i].Scope.Lookup(vi.Name)
-								// exit when found the struct
-								if obj != nil {
-									break
-								}
-							}
-						}
-						// After lookup still cannot find the type, then skip
-						if obj == nil {
-							continue
-						}
-
-						t := obj.Decl.(*ast.TypeSpec)
-						switch t.Type.(type) {
-						case *ast.StructType:
-							ft := &structField{
-								name:  types.ExprString(vi),
-								t:     f.pkg.TypesInfo.TypeOf(fi.Type),
-								index: append(slices.Clone(f.idx), pos),
-								// paths:    append(f.paths, path),
-								exported: vi.IsExported(),
-								embedded: true,
-								parent:   f.prev,
-								tag:      tag,
-							}
-							structFields = append(structFields, ft)
-
-							q = append(q, typeQueue{
-								idx:  ft.index,
-								prev: ft,
-								t:    t.Type.(*ast.StructType),
-								pkg:  f.pkg,
-							})
-							pos++
-							continue
-						case *ast.ArrayType:
-							continue
-						}
-
-					// Embedded with imported struct
-					case *ast.SelectorExpr:
-						var (
-							t         = f.pkg.TypesInfo.TypeOf(vi)
-							pkgPath   = t.String()
-							idx       = strings.LastIndex(pkgPath, ".")
-							importPkg = f.pkg.Imports[pkgPath[:idx]]
-							obj       *ast.Object
-						)
-
-						for i := range importPkg.Syntax {
-							obj = importPkg.Syntax[i].Scope.Lookup(vi.Sel.Name)
-							if obj != nil {
-								break
-							}
-						}
-
-						// Skip if unable to find the specific object
-						if obj == nil {
-							continue
-						}
-
-						decl := assertAsPtr[ast.TypeSpec](obj.Decl)
-						if decl == nil {
-							continue
-						}
-
+					// Local struct, or embedded with imported struct
+					if id := typeIdent(t); id != nil {
 						// If it's a embedded struct, we continue on next loop
-						if st := assertAsPtr[ast.StructType](decl.Type); st != nil {
+						if st, pkg := structOf(f.pkg, id); st != nil {
 							ft := &structField{
-								name:     types.ExprString(vi.Sel),
+								name:     id.Name,
 								t:        f.pkg.TypesInfo.TypeOf(fi.Type),
 								index:    append(slices.Clone(f.idx), pos),
-								exported: vi.Sel.IsExported(),
+								exported: id.IsExported(),
 								embedded: true,
 								parent:   f.prev,
 								tag:      tag,
 							}
+							structFields = append(structFields, ft)
 
 							q = append(q, typeQueue{
 								idx:  ft.index,
-								t:    st,
 								prev: ft,
-								pkg:  importPkg,
+								t:    st,
+								pkg:  pkg,
 							})
-							structFields = append(structFields, ft)
 							pos++
 						}
 						continue
@@ -487,6 +415,52 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 	return goPkg, nil
 }
 
+// The name in a type expression, which can be either `Type` or `pkg.Type`
+func typeIdent(expr ast.Expr) *ast.Ident {
+	switch t := expr.(type) {
+	case *ast.Ident:
+		return t
+	case *ast.SelectorExpr:
+		return t.Sel
+	default:
+		return nil
+	}
+}
+
+// Find the struct which a type name stands for, together with the package
+// it is declared in. A type can be defined by another type, e.g: `type B A`
+func structOf(pkg *packages.Package, id *ast.Ident) (*ast.StructType, *packages.Package) {
+	for id != nil {
+		// The object of an embedded field is the field, we want the type it uses
+		obj := pkg.TypesInfo.Uses[id]
+		if obj == nil || obj.Pkg() == nil {
+			return nil, nil
+		}
+		if path := obj.Pkg().Path(); path != pkg.Types.Path() {
+			if pkg = pkg.Imports[path]; pkg == nil {
+				return nil, nil
+			}
+		}
+
+		var decl *ast.TypeSpec
+		for i := range pkg.Syntax {
+			if o := pkg.Syntax[i].Scope.Lookup(obj.Name()); o != nil {
+				decl = assertAsPtr[ast.TypeSpec](o.Decl)
+				break
+			}
+		}
+		// After lookup still cannot find the type, then skip
+		if decl == nil {
+			return nil, nil
+		}
+		if t := assertAsPtr[ast.StructType](decl.Type); t != nil {
+			return t, pkg
+		}
+		id = typeIdent(decl.Type)
+	}
+	return nil, nil
+}
+
 // This is to count the underlying pointer of a type
 func ptrCount(t types.Type) int {
 	var total int
-- 
2.43.0


From 7df0ac703815999d13ae83b9f8a2137bd6a28cc8 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 35/58] fix: methods promoted from embedded structs are not the
 model's own

---
 cmd/sqlgen/internal/compiler/compiler.go      |  17 +-
 examples/db/mysql/db.go                       | 740 +++++++++---------
 examples/db/mysql/operator.go                 |   8 +
 examples/db/postgres/db.go                    | 720 ++++++++---------
 examples/db/postgres/operator.go              |   8 +
 examples/db/sqlite/db.go                      | 740 +++++++++---------
 examples/db/sqlite/operator.go                |   8 +
 .../struct/embedded/imported/generated.go     |  47 --
 8 files changed, 1089 insertions(+), 1199 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index bb3d8c8..fbdbcd6 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -91,11 +91,24 @@ func (t *Table) InsertColumns() []*Column {
 }
 
 func (t *Table) Implements(T *types.Interface) (*types.Func, bool) {
-	return types.MissingMethod(t.t, T, true)
+	return missingMethod(t.t, T)
 }
 
 func (t *Table) PtrImplements(T *types.Interface) (*types.Func, bool) {
-	return types.MissingMethod(types.NewPointer(t.t), T, true)
+	return missingMethod(types.NewPointer(t.t), T)
+}
+
+// Method which is promoted from an embedded struct describes the embedded
+// struct, so we treat it as missing
+func missingMethod(t types.Type, T *types.Interface) (*types.Func, bool) {
+	for i := 0; i < T.NumMethods(); i++ {
+		m := T.Method(i)
+		obj, index, _ := types.LookupFieldOrMethod(t, true, m.Pkg(), m.Name())
+		if _, ok := obj.(*types.Func); ok && len(index) > 1 {
+			return m, false
+		}
+	}
+	return types.MissingMethod(t, T, true)
 }
 
 type Column struct {
diff --git a/examples/db/mysql/db.go b/examples/db/mysql/db.go
index 1f2bc04..bbf78df 100755
--- a/examples/db/mysql/db.go
+++ b/examples/db/mysql/db.go
@@ -8,8 +8,9 @@ import (
 	"database/sql/driver"
 	"fmt"
 	"iter"
+	"math"
 	"reflect"
-	"sort"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -46,7 +47,7 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 		query, args := v.InsertOneStmt()
 		return db.ExecContext(ctx, query, args...)
 	default:
-		columns, args := model.Columns(), model.Values()
+		columns, args := insertColumns(model), insertValues(model)
 		query := "INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat("?,", len(columns)-1) + "?);"
 		return db.ExecContext(ctx, query, args...)
 	}
@@ -60,13 +61,11 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 	}
 
 	model := data[0]
-	columns := model.Columns()
+	columns := insertColumns(model)
 	stmt := strpool.AcquireString()
 
-	switch v := any(model).(type) {
+	switch any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		_, idx, _ := v.PK()
-		columns = append(columns[:idx], columns[idx+1:]...)
 		noOfCols := len(columns)
 		cols := strings.Join(columns, ",")
 		args := make([]any, 0, noOfCols*noOfData)
@@ -78,9 +77,7 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 			} else {
 				stmt.WriteString(placeholder)
 			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
+			args = append(args, insertValues(data[i])...)
 		}
 		stmt.WriteByte(';')
 		result, err := db.ExecContext(ctx, stmt.String(), args...)
@@ -92,10 +89,10 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 		args := make([]any, 0, noOfCols*noOfData)
 		placeholder := "(" + strings.Repeat(",?", noOfCols)[1:] + ")"
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES " + placeholder)
-		args = append(args, data[0].Values()...)
+		args = append(args, insertValues(data[0])...)
 		for i := 1; i < noOfData; i++ {
 			stmt.WriteString("," + placeholder)
-			args = append(args, data[i].Values()...)
+			args = append(args, insertValues(data[i])...)
 		}
 		stmt.WriteByte(';')
 		result, err := db.ExecContext(ctx, stmt.String(), args...)
@@ -104,38 +101,48 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 	}
 }
 
+const (
+	insertIgnore = "INSERT IGNORE INTO "
+	onConflict   = " ON DUPLICATE KEY UPDATE "
+)
+
+// newValue is the value which is proposed for insertion.
+func newValue(column string) string {
+	return "VALUES(" + column + ")"
+}
+
 func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Context, db *sql.DB, model Ptr, override bool, omittedFields ...string) (sql.Result, error) {
 	stmt := strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
 	switch v := any(model).(type) {
 	case sequel.PrimaryKeyer:
 		pkName, idx, _ := v.PK()
-		columns := model.Columns()
-		if !override {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
+		columns := insertColumns(model)
+		if !override || !hasUpdate(columns, append(omittedFields, pkName)) {
+			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
 			omitDict := map[string]struct{}{pkName: {}}
 			for i := range omittedFields {
 				omitDict[omittedFields[i]] = struct{}{}
 			}
 			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ")" + onConflict)
 			first := true
 			for i := range columns {
 				if _, ok := omitDict[columns[i]]; ok {
 					continue
 				}
 				if first {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
+					stmt.WriteString(columns[i] + " =" + newValue(columns[i]))
 				} else {
-					stmt.WriteString("," + columns[i] + " =VALUES(" + columns[i] + ")")
+					stmt.WriteString("," + columns[i] + " =" + newValue(columns[i]))
 				}
 				first = false
 			}
 			clear(omitDict)
 		}
 		if _, ok := any(model).(sequel.AutoIncrKeyer); ok {
-			result, err := db.ExecContext(ctx, stmt.String(), model.Values()...)
+			result, err := db.ExecContext(ctx, stmt.String(), insertValues(model)...)
 			if err != nil {
 				return nil, err
 			}
@@ -155,36 +162,38 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 			}
 			return result, nil
 		}
-		return db.ExecContext(ctx, stmt.String(), model.Values()...)
+		return db.ExecContext(ctx, stmt.String(), insertValues(model)...)
 	case sequel.CompositeKeyer:
-		names, idxs, _ := v.CompositeKey()
-		columns := model.Columns()
-		if !override {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
+		names, _, _ := v.CompositeKey()
+		columns := insertColumns(model)
+		if !override || !hasUpdate(columns, append(omittedFields, names...)) {
+			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
+			// Exclude composite key, don't update it
 			dict := make(map[string]struct{})
-			for i := range append(names, omittedFields...) {
+			for i := range names {
+				dict[names[i]] = struct{}{}
+			}
+			for i := range omittedFields {
 				dict[omittedFields[i]] = struct{}{}
 			}
 			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
-			// Exclude composite key, don't update it
-			for i := len(idxs) - 1; i >= 0; i-- {
-				columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
-			}
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ")" + onConflict)
+			first := true
 			for i := range columns {
 				if _, ok := dict[columns[i]]; ok {
 					continue
 				}
-				if i < noOfCols-1 {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + "),")
+				if first {
+					stmt.WriteString(columns[i] + " =" + newValue(columns[i]))
 				} else {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
+					stmt.WriteString("," + columns[i] + " =" + newValue(columns[i]))
 				}
+				first = false
 			}
 			clear(dict)
 		}
-		return db.ExecContext(ctx, stmt.String(), model.Values()...)
+		return db.ExecContext(ctx, stmt.String(), insertValues(model)...)
 	default:
 		panic("unreachable")
 	}
@@ -202,7 +211,7 @@ func Upsert[T interface {
 
 	var (
 		model    = data[0]
-		columns  = model.Columns()
+		columns  = insertColumns(model)
 		noOfCols = len(columns)
 		args     = make([]any, 0, noOfCols*noOfData)
 	)
@@ -211,14 +220,14 @@ func Upsert[T interface {
 	defer strpool.ReleaseString(stmt)
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
+		pkName, _, _ := v.PK()
 		omittedFields = append(omittedFields, pkName)
+		override = override && hasUpdate(columns, omittedFields)
 		// Don't include auto increment primary key on INSERT
-		columns = append(columns[:idx], columns[idx+1:]...)
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		placeholder := ",(" + strings.Repeat(",?", noOfCols)[1:] + ")"
 		for i := 0; i < noOfData; i++ {
@@ -227,17 +236,16 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(placeholder[1:])
 			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
+			args = append(args, insertValues(data[i])...)
 		}
 	case sequel.PrimaryKeyer:
 		pkName, _, _ := v.PK()
 		omittedFields = append(omittedFields, pkName)
+		override = override && hasUpdate(columns, omittedFields)
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		for i := 0; i < noOfData; i++ {
 			if i > 0 {
@@ -245,13 +253,17 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, data[i].Values()...)
+			args = append(args, insertValues(data[i])...)
 		}
 	case sequel.CompositeKeyer:
+		// Exclude composite key, don't update it
+		keyNames, _, _ := v.CompositeKey()
+		omittedFields = append(omittedFields, keyNames...)
+		override = override && hasUpdate(columns, omittedFields)
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		for i := 0; i < noOfData; i++ {
 			if i > 0 {
@@ -259,16 +271,11 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, data[i].Values()...)
-		}
-		_, idxs, _ := v.CompositeKey()
-		// Exclude primary key, don't update it
-		for i := len(idxs) - 1; i >= 0; i-- {
-			columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
+			args = append(args, insertValues(data[i])...)
 		}
 	}
 	if override {
-		stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
+		stmt.WriteString(onConflict)
 		// Don't update primary key when we do upsert
 		omitDict := map[string]struct{}{}
 		for i := range omittedFields {
@@ -281,9 +288,9 @@ func Upsert[T interface {
 				continue
 			}
 			if first {
-				stmt.WriteString(columns[i] + "=VALUES(" + columns[i] + ")")
+				stmt.WriteString(columns[i] + "=" + newValue(columns[i]))
 			} else {
-				stmt.WriteString("," + columns[i] + "=VALUES(" + columns[i] + ")")
+				stmt.WriteString("," + columns[i] + "=" + newValue(columns[i]))
 			}
 			first = false
 		}
@@ -317,25 +324,20 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		query, args := v.UpdateOneByPKStmt()
 		return db.ExecContext(ctx, query, args...)
 	case sequel.PrimaryKeyer:
-		pkName, pkIdx, pk := v.PK()
-		columns := model.Columns()
-		columns = append(columns[:pkIdx], columns[pkIdx+1:]...)
-		values := model.Values()
-		values = append(values[:pkIdx], append(values[pkIdx+1:], pk)...)
+		pkName, _, pk := v.PK()
+		columns, values := updateColumns(model, pkName)
+		if len(columns) == 0 {
+			columns, values = []string{pkName}, []any{pk}
+		}
 		return db.ExecContext(ctx, "UPDATE "+DbTable(model)+" SET "+strings.Join(columns, " = ?,")+" = ? WHERE "+pkName+" = ?;", append(values, pk)...)
 	case sequel.CompositeKeyer:
-		columns := model.Columns()
-		keyNames, keyIdxs, keys := v.CompositeKey()
-		values := model.Values()
-		sort.Ints(keyIdxs)
-		for i := len(keyIdxs) - 1; i >= 0; i-- {
-			columns = append(columns[:keyIdxs[i]], columns[keyIdxs[i]+1:]...)
-			values = append(values[:keyIdxs[i]], values[keyIdxs[i]+1:]...)
+		keyNames, _, keys := v.CompositeKey()
+		columns, values := updateColumns(model, keyNames...)
+		if len(columns) == 0 {
+			columns, values = keyNames, slices.Clone(keys)
 		}
-		noOfColumn := len(columns)
-		args := make([]any, 0, noOfColumn+len(keys))
 		query := "UPDATE " + DbTable(model) + " SET " + strings.Join(columns, " = ?,") + " = ? WHERE (" + strings.Join(keyNames, ",") + ") = (?" + strings.Repeat(",?", len(keyNames)-1) + ");"
-		return db.ExecContext(ctx, query, append(args, keys...)...)
+		return db.ExecContext(ctx, query, append(values, keys...)...)
 	default:
 		panic("unreachable")
 	}
@@ -406,317 +408,159 @@ type Pager[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]] struct {
 	stmt *PaginateStmt
 }
 
+// Prev iterates backward, from the cursor or else from the last record.
 func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.pages(ctx, db, false, cursor)
+}
+
+// Next iterates forward, from the cursor or else from the first record.
+func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.pages(ctx, db, true, cursor)
+}
+
+func (r *Pager[T, Ptr]) pages(ctx context.Context, db *sql.DB, forward bool, cursor []T) iter.Seq2[[]T, error] {
 	return func(yield func([]T, error) bool) {
 		var (
-			v         T
-			hasCursor bool
-			maxLimit  = r.stmt.Limit
+			from     Ptr
+			maxLimit = int(r.stmt.Limit)
 		)
 		if len(cursor) > 0 {
-			v = cursor[0]
-			hasCursor = true
+			v := cursor[0]
+			from = &v
+			if err := FindByPK[T](ctx, db, from); err != nil {
+				yield(nil, err)
+				return
+			}
 		}
-		blr := AcquireStmt()
-		defer ReleaseStmt(blr)
-
 		for {
-			if hasCursor {
-				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
-					yield(nil, err)
-					return
-				}
-			}
-
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
-			if r.stmt.Where != nil {
-				r.stmt.Where(blr)
-			}
-
-			if n := len(r.stmt.OrderBy); n > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
-				}
-
-				buf := strpool.AcquireString()
-				for i := 0; i < n; i++ {
-					orderedColumn := r.stmt.OrderBy[i]
-					columnName := orderedColumn.ColumnName()
-					value := values[colDict[columnName]]
-					if orderedColumn.Asc() {
-						// If ascending
-						blr.WriteString(columnName + " <= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " < " + blr.Var(value) + " OR ")
-					} else {
-						// If descending
-						blr.WriteString(columnName + " >= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " > " + blr.Var(value) + " OR ")
-					}
-				}
-				clear(colDict)
-				blr.WriteString("(" + buf.String())
-				strpool.ReleaseString(buf)
-			}
-
-			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") <= " + blr.Vars(vals) + ")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("(" + pkName + " <= " + blr.Var(val) + ")")
-				default:
-					panic("unreachable")
-				}
-			}
-
-			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
-					}
-				}
-				var (
-					suffix  = " DESC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if lastCol.Asc() {
-					suffix = " ASC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("(" + strings.Join(pkNames, ",") + ")" + suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
-				}
-			} else {
-				// If there is no order by clause,
-				// descending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("(" + strings.Join(pkNames, ",") + ") DESC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + " DESC")
-				default:
-					panic("unreachable")
-				}
-			}
 			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
-
-			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
-			blr.Reset()
+			data, err := r.fetch(ctx, db, forward, from, maxLimit+1)
 			if err != nil {
 				yield(nil, err)
 				return
 			}
-
-			data := make([]T, 0, r.stmt.Limit+1)
-			for rows.Next() {
-				var v T
-				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
-					rows.Close()
-					yield(nil, err)
-					return
-				}
-				data = append(data, v)
-			}
-			rows.Close()
-
-			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
-				if !yield(data, nil) {
-					return
-				}
+			if len(data) <= maxLimit {
+				yield(data, nil)
 				return
 			}
-
-			if !yield(data[:noOfRecord-1], nil) {
+			next := data[maxLimit] // Set next cursor
+			from = &next
+			if !yield(data[:maxLimit:maxLimit], nil) {
 				return
 			}
-
-			v = data[noOfRecord-1] // Set next cursor
-			data = nil             // Reset result
-			hasCursor = true
 		}
 	}
 }
 
-func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
-	return func(yield func([]T, error) bool) {
-		var (
-			v         T
-			hasCursor bool
-			maxLimit  = r.stmt.Limit
-		)
-		if len(cursor) > 0 {
-			v = cursor[0]
-			hasCursor = true
-		}
-		blr := AcquireStmt()
-		defer ReleaseStmt(blr)
-
-		for {
-			if hasCursor {
-				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
-					yield(nil, err)
-					return
-				}
-			}
-
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
-			if r.stmt.Where != nil {
-				r.stmt.Where(blr)
-			}
-
-			if len(r.stmt.OrderBy) > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
-				}
+// fetch returns the records of a page, the first one is the cursor.
+func (r *Pager[T, Ptr]) fetch(ctx context.Context, db *sql.DB, forward bool, cursor Ptr, limit int) ([]T, error) {
+	var (
+		v       T
+		keys    []string
+		values  []any
+		orderBy = slices.Clone(r.stmt.OrderBy)
+		asc     = len(orderBy) == 0 || orderBy[len(orderBy)-1].Asc()
+	)
+	if cursor != nil {
+		v = *cursor
+	}
+	switch vi := any(v).(type) {
+	case sequel.CompositeKeyer:
+		keys, _, values = vi.CompositeKey()
+	case sequel.PrimaryKeyer:
+		name, _, value := vi.PK()
+		keys, values = []string{name}, []any{value}
+	default:
+		panic("unreachable")
+	}
+	// The key is the tie-breaker
+	for i := range keys {
+		orderBy = append(orderBy, sequel.OrderByColumn(keys[i], asc))
+	}
 
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" AND ")
-					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " >= " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " <= " + blr.Var(val))
-					}
-				}
-				blr.WriteString(" AND (")
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" OR ")
-					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " > " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " < " + blr.Var(val))
-					}
-				}
-				clear(colDict)
-				blr.WriteString(" OR ")
+	blr := AcquireStmt()
+	defer ReleaseStmt(blr)
+	blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v))
+	if r.stmt.Where != nil {
+		blr.WriteString(" WHERE (")
+		r.stmt.Where(blr)
+		blr.WriteByte(')')
+	}
+	if cursor != nil {
+		if r.stmt.Where != nil {
+			blr.WriteString(" AND ")
+		} else {
+			blr.WriteString(" WHERE ")
+		}
+		// Compare the columns with those of the cursor, in priority order
+		for i := range orderBy {
+			name, op := orderBy[i].ColumnName(), " < "
+			asc := orderBy[i].Asc() == forward
+			if asc {
+				op = " > "
 			}
-
-			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") >= " + blr.Vars(vals) + ")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("(" + pkName + " >= " + blr.Var(val) + ")")
-				default:
-					panic("unreachable")
+			if n := i - len(r.stmt.OrderBy); n >= 0 {
+				if n == len(keys)-1 {
+					// The cursor itself is included
+					blr.WriteString(name + op[:2] + "= " + blr.Var(values[n]))
+				} else {
+					blr.WriteString("(" + name + op + blr.Var(values[n]) + " OR (" + name + " = " + blr.Var(values[n]) + " AND ")
 				}
+				continue
 			}
-
-			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
+			value := func() string {
+				str := "(SELECT " + name + " FROM " + DbTable(v) + " WHERE "
+				for j := range keys {
+					if j > 0 {
+						str += " AND "
 					}
+					str += keys[j] + " = " + blr.Var(values[j])
 				}
-				var (
-					suffix  = " ASC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if !lastCol.Asc() {
-					suffix = " DESC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("(" + strings.Join(pkNames, ",") + ")" + suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
-				}
-			} else {
-				// If there is no order by clause,
-				// ascending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("(" + strings.Join(pkNames, ",") + ") ASC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName)
-				default:
-					panic("unreachable")
-				}
-			}
-			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
-
-			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
-			blr.Reset()
-			if err != nil {
-				yield(nil, err)
-				return
-			}
-
-			data := make([]T, 0, r.stmt.Limit+1)
-			for rows.Next() {
-				var v T
-				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
-					rows.Close()
-					yield(nil, err)
-					return
-				}
-				data = append(data, v)
+				return str + ")"
 			}
-			rows.Close()
-
-			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
-				if !yield(data, nil) {
-					return
-				}
-				return
+			blr.WriteString("(" + name + op + value())
+			nullsLast := !asc
+			if nullsLast {
+				blr.WriteString(" OR (" + name + " IS NULL AND " + value() + " IS NOT NULL)")
+			} else {
+				blr.WriteString(" OR (" + name + " IS NOT NULL AND " + value() + " IS NULL)")
 			}
+			blr.WriteString(" OR ((" + name + " = " + value() + " OR (" + name + " IS NULL AND " + value() + " IS NULL)) AND ")
+		}
+		blr.WriteString(strings.Repeat("))", len(orderBy)-1))
+	}
+	for i := range orderBy {
+		if i > 0 {
+			blr.WriteByte(',')
+		} else {
+			blr.WriteString(" ORDER BY ")
+		}
+		if orderBy[i].Asc() == forward {
+			blr.WriteString(orderBy[i].ColumnName() + " ASC")
+		} else {
+			blr.WriteString(orderBy[i].ColumnName() + " DESC")
+		}
+	}
+	blr.WriteString(" LIMIT " + strconv.Itoa(limit) + ";")
 
-			if !yield(data[:noOfRecord-1], nil) {
-				return
-			}
+	rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
 
-			v = data[noOfRecord-1] // Set next cursor
-			data = nil             // Reset result
-			hasCursor = true
+	data := []T{}
+	for rows.Next() {
+		var v T
+		if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
+			return nil, err
 		}
+		data = append(data, v)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+	return data, rows.Close()
 }
 
 type SelectStmt struct {
@@ -781,6 +625,9 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 	}
 	if stmt.Limit > 0 {
 		blr.WriteString(" LIMIT " + strconv.Itoa((int)(stmt.Limit)))
+	} else if stmt.Offset > 0 {
+		// An offset is only allowed after a limit
+		blr.WriteString(" LIMIT 9223372036854775807")
 	}
 	if stmt.Offset > 0 {
 		blr.WriteString(" OFFSET " + strconv.FormatUint(stmt.Offset, 10))
@@ -801,6 +648,9 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 		}
 		result = append(result, v)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	if err := rows.Close(); err != nil {
 		return nil, err
 	}
@@ -837,6 +687,7 @@ func QueryOneStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.
 		case sequel.Tabler:
 			blr.WriteString(" FROM " + DbTable(vj))
 		default:
+			ReleaseStmt(blr)
 			return nil, fmt.Errorf("missing table name for model %T", v)
 		}
 	}
@@ -898,7 +749,7 @@ func ExecStmt[T any, Stmt interface {
 
 	switch vi := any(stmt).(type) {
 	case UpdateStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
+		if vt, ok := any(v).(sequel.Tabler); ok && vi.Table == "" {
 			blr.WriteString("UPDATE " + DbTable(vt))
 		} else {
 			blr.WriteString("UPDATE " + dbName(v) + vi.Table)
@@ -933,7 +784,7 @@ func ExecStmt[T any, Stmt interface {
 			blr.WriteString(" LIMIT " + strconv.Itoa((int)(vi.Limit)))
 		}
 	case DeleteStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
+		if vt, ok := any(v).(sequel.Tabler); ok && vi.FromTable == "" {
 			blr.WriteString("DELETE FROM " + DbTable(vt))
 		} else {
 			blr.WriteString("DELETE FROM " + dbName(v) + vi.FromTable)
@@ -1002,7 +853,7 @@ func (s *SqlStmt) Var(value any) string {
 func (s *SqlStmt) Vars(values []any) string {
 	noOfLen := len(values)
 	s.args = append(s.args, values...)
-	return "(" + strings.Repeat(",?", noOfLen)[1:] + ")"
+	return "(" + strings.TrimPrefix(strings.Repeat(",?", noOfLen), ",") + ")"
 }
 
 func (s *SqlStmt) Write(p []byte) (int, error) {
@@ -1039,27 +890,29 @@ func (s *SqlStmt) Format(f fmt.State, verb rune) {
 	}
 
 	var (
-		args = make([]any, len(s.args))
-		idx  int
-		i    = 1
+		buf = make([]byte, 0, len(str)*2)
+		pos int
 	)
-
-	copy(args, s.args)
-
-	for {
-		idx = strings.Index(str, "?")
-		if idx < 0 {
-			f.Write(unsafe.Slice(unsafe.StringData(str), len(str)))
-			break
+	for i := 0; i < len(str); {
+		if n := skipText(str[i:]); n > 0 {
+			buf = append(buf, str[i:i+n]...)
+			i += n
+			continue
 		}
-
-		f.Write([]byte(str[:idx]))
-		v := strf(args[0])
-		f.Write(unsafe.Slice(unsafe.StringData(v), len(v)))
-		str = str[idx+1:]
-		args = args[1:]
-		i++
+		n := 0
+		if strings.HasPrefix(str[i:], "?") {
+			pos++
+			n = len("?")
+		}
+		if n > 0 && pos > 0 && pos <= len(s.args) {
+			buf = append(buf, strf(s.args[pos-1])...)
+		} else {
+			n = max(n, 1)
+			buf = append(buf, str[i:i+n]...)
+		}
+		i += n
 	}
+	f.Write(buf)
 }
 
 func (s *SqlStmt) Reset() {
@@ -1082,6 +935,53 @@ func TableColumns[T sequel.Columner](model T) []string {
 	return model.Columns()
 }
 
+// insertColumns returns the columns to insert, without the auto increment key
+// and the columns which are readonly.
+func insertColumns[T sequel.Columner](model T) []string {
+	if v, ok := any(model).(sequel.InsertColumner); ok {
+		return v.InsertColumns()
+	}
+	columns := model.Columns()
+	if v, ok := any(model).(sequel.AutoIncrKeyer); ok {
+		_, idx, _ := v.PK()
+		return slices.Delete(slices.Clone(columns), idx, idx+1)
+	}
+	return columns
+}
+
+// insertValues returns the values of the columns from insertColumns.
+func insertValues[T sequel.Valuer](model T) []any {
+	values := model.Values()
+	if _, ok := any(model).(sequel.InsertColumner); ok {
+		return values
+	}
+	if v, ok := any(model).(sequel.AutoIncrKeyer); ok {
+		_, idx, _ := v.PK()
+		return slices.Delete(slices.Clone(values), idx, idx+1)
+	}
+	return values
+}
+
+// updateColumns returns the columns to update, without the keys, and their values.
+func updateColumns[T sequel.ColumnValuer](model T, keys ...string) ([]string, []any) {
+	columns, values := insertColumns(model), insertValues(model)
+	cols, args := make([]string, 0, len(columns)), make([]any, 0, len(columns)+len(keys))
+	for i := range columns {
+		if !slices.Contains(keys, columns[i]) {
+			cols = append(cols, columns[i])
+			args = append(args, values[i])
+		}
+	}
+	return cols, args
+}
+
+// hasUpdate tells whether any of the columns is not omitted.
+func hasUpdate(columns, omitted []string) bool {
+	return slices.ContainsFunc(columns, func(column string) bool {
+		return !slices.Contains(omitted, column)
+	})
+}
+
 func dbName(model any) string {
 	if v, ok := model.(sequel.Databaser); ok {
 		return v.DatabaseName() + "."
@@ -1089,42 +989,104 @@ func dbName(model any) string {
 	return ""
 }
 
+// skipText returns the length of the string literal, quoted identifier or
+// comment that s starts with, or zero. There are no placeholders in these.
+func skipText(s string) int {
+	switch {
+	case strings.HasPrefix(s, "--"):
+		if i := strings.IndexByte(s, '\n'); i >= 0 {
+			return i
+		}
+		return len(s)
+	case strings.HasPrefix(s, "/*"):
+		if i := strings.Index(s[2:], "*/"); i >= 0 {
+			return i + 4
+		}
+		return len(s)
+	}
+	i, escape := 1, true
+	end := s[i-1]
+	if end != '\'' && end != '"' && end != '`' {
+		return 0
+	}
+	for ; i < len(s); i++ {
+		if s[i] == end {
+			return i + 1
+		}
+		if escape && end != '`' && s[i] == '\\' {
+			i++
+		}
+	}
+	return len(s)
+}
+
+// quote returns the string literal of s.
+func quote(s string) string {
+	return "'" + strings.NewReplacer("'", "''", "\\", "\\\\").Replace(s) + "'"
+}
+
+func formatFloat(f float64) string {
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		return quote(strconv.FormatFloat(f, 'g', -1, 64))
+	}
+	return strconv.FormatFloat(f, 'g', -1, 64)
+}
+
+// strf returns the literal of the value.
 func strf(v any) string {
 	switch vi := v.(type) {
 	case nil:
 		return "NULL"
 	case string:
-		return strconv.Quote(vi)
+		return quote(vi)
 	case []byte:
-		return strconv.Quote(unsafe.String(unsafe.SliceData(vi), len(vi)))
+		if vi == nil {
+			return "NULL"
+		}
+		return quote(string(vi))
 	case bool:
 		return strconv.FormatBool(vi)
 	case int64:
 		return strconv.FormatInt(vi, 10)
 	case float64:
-		return strconv.FormatFloat(vi, 'f', 10, 64)
+		return formatFloat(vi)
 	case time.Time:
-		return strconv.Quote(vi.Format(time.RFC3339))
-	case sql.RawBytes:
-		return unsafe.String(unsafe.SliceData(vi), len(vi))
+		return quote(vi.Format(time.RFC3339Nano))
 	case driver.Valuer:
-		val, _ := vi.Value()
+		rv := reflect.ValueOf(v)
+		if rv.Kind() == reflect.Pointer && rv.IsNil() && rv.Type().Elem().Implements(reflect.TypeFor[driver.Valuer]()) {
+			return "NULL"
+		}
+		val, err := vi.Value()
+		if err != nil {
+			return quote(err.Error())
+		}
+		if _, ok := val.(driver.Valuer); ok {
+			return quote(fmt.Sprint(val))
+		}
 		return strf(val)
-	default:
-		vt := reflect.ValueOf(v)
-		switch vt.Kind() {
-		case reflect.String:
-			return strconv.Quote(vt.String())
-		case reflect.Bool:
-			return strconv.FormatBool(vt.Bool())
-		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-			return strconv.FormatInt(vt.Int(), 10)
-		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			return strconv.FormatUint(vt.Uint(), 10)
-		case reflect.Float32, reflect.Float64:
-			return strconv.FormatFloat(vt.Float(), 'f', 10, 64)
-		default:
-			panic("unreachable")
+	}
+	vt := reflect.ValueOf(v)
+	switch vt.Kind() {
+	case reflect.String:
+		return quote(vt.String())
+	case reflect.Bool:
+		return strconv.FormatBool(vt.Bool())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return strconv.FormatInt(vt.Int(), 10)
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return strconv.FormatUint(vt.Uint(), 10)
+	case reflect.Float32, reflect.Float64:
+		return formatFloat(vt.Float())
+	case reflect.Pointer:
+		if vt.IsNil() {
+			return "NULL"
+		}
+		return strf(vt.Elem().Interface())
+	case reflect.Slice:
+		if vt.Type().Elem().Kind() == reflect.Uint8 {
+			return strf(vt.Bytes())
 		}
 	}
+	return quote(fmt.Sprint(v))
 }
diff --git a/examples/db/mysql/operator.go b/examples/db/mysql/operator.go
index 3d13778..9cf1d6b 100755
--- a/examples/db/mysql/operator.go
+++ b/examples/db/mysql/operator.go
@@ -62,6 +62,10 @@ func NotEqual[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 
 func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
+		if len(values) == 0 {
+			w.WriteString("1 = 0")
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
@@ -83,6 +87,10 @@ func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 
 func NotIn[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
+		if len(values) == 0 {
+			w.WriteString("1 = 1")
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
diff --git a/examples/db/postgres/db.go b/examples/db/postgres/db.go
index 999dce9..bbfcb5d 100755
--- a/examples/db/postgres/db.go
+++ b/examples/db/postgres/db.go
@@ -6,10 +6,12 @@ import (
 	"context"
 	"database/sql"
 	"database/sql/driver"
+	"errors"
 	"fmt"
 	"iter"
+	"math"
 	"reflect"
-	"sort"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -30,7 +32,7 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 		query, args := v.InsertOneStmt()
 		return db.QueryRowContext(ctx, query, args...).Scan(model.Addrs()...)
 	default:
-		columns, args := model.Columns(), model.Values()
+		columns, args := insertColumns(model), insertValues(model)
 		stmt := strpool.AcquireString()
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ($1")
 		noOfArgs := len(args)
@@ -52,13 +54,11 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 	}
 
 	model := data[0]
-	columns := model.Columns()
+	columns := insertColumns(model)
 	stmt := strpool.AcquireString()
 
-	switch v := any(model).(type) {
+	switch any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		_, idx, _ := v.PK()
-		columns = append(columns[:idx], columns[idx+1:]...)
 		noOfCols := len(columns)
 		cols := strings.Join(columns, ",")
 		args := make([]any, 0, noOfCols*noOfData)
@@ -69,9 +69,7 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
+			args = append(args, insertValues(data[i])...)
 		}
 		stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
 		rows, err := db.QueryContext(ctx, stmt.String(), args...)
@@ -87,15 +85,18 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 			}
 			i++
 		}
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		return sequel.NewRowsAffectedResult(i), rows.Close()
 	default:
 		noOfCols := len(columns)
 		args := make([]any, 0, noOfCols*noOfData)
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES " + model.InsertPlaceholders(0))
-		args = append(args, data[0].Values()...)
+		args = append(args, insertValues(data[0])...)
 		for i := 1; i < noOfData; i++ {
 			stmt.WriteString("," + model.InsertPlaceholders(i))
-			args = append(args, data[i].Values()...)
+			args = append(args, insertValues(data[i])...)
 		}
 		stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
 		rows, err := db.QueryContext(ctx, stmt.String(), args...)
@@ -111,6 +112,9 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 			}
 			i++
 		}
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		return sequel.NewRowsAffectedResult(i), rows.Close()
 	}
 }
@@ -157,18 +161,16 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface {
 
 	var (
 		stmt     = strpool.AcquireString()
-		columns  = model.Columns()
+		columns  = insertColumns(model)
 		noOfCols = len(columns)
-		values   = model.Values()
+		values   = insertValues(model)
 	)
 	defer strpool.ReleaseString(stmt)
 
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
+		pkName, _, _ := v.PK()
 		opt.omitFields = append(opt.omitFields, pkName)
-		columns = append(columns[:idx], columns[idx+1:]...)
-		values = append(values[:idx], values[idx+1:]...)
 		// Don't include auto increment primary key on INSERT
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 	case sequel.PrimaryKeyer:
@@ -201,15 +203,16 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface {
 			panic("unreachable")
 		}
 	}
+	if omitter, ok := any(model).(setOnUpsertOmitter); ok {
+		opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
+	}
+	opt.doNothing = opt.doNothing || !hasUpdate(columns, opt.omitFields)
 	if opt.doNothing {
 		stmt.WriteString(" DO NOTHING")
 	} else {
 		stmt.WriteString(" DO UPDATE SET ")
 		omitDict := make(map[string]struct{})
 		noOfCols = len(columns)
-		if omitter, ok := any(model).(setOnUpsertOmitter); ok {
-			opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
-		}
 		for i := range opt.omitFields {
 			omitDict[opt.omitFields[i]] = struct{}{}
 		}
@@ -228,7 +231,12 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface {
 		clear(omitDict)
 	}
 	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
-	return db.QueryRowContext(ctx, stmt.String(), values...).Scan(model.Addrs()...)
+	err := db.QueryRowContext(ctx, stmt.String(), values...).Scan(model.Addrs()...)
+	if opt.doNothing && errors.Is(err, sql.ErrNoRows) {
+		// The record exists, there is nothing to return
+		return nil
+	}
+	return err
 }
 
 // Upsert is a helper function to upsert multiple records.
@@ -243,7 +251,7 @@ func Upsert[T interface {
 
 	var (
 		model    = data[0]
-		columns  = model.Columns()
+		columns  = insertColumns(model)
 		noOfCols = len(columns)
 		args     = make([]any, 0, noOfCols*noOfData)
 		opt      upsertOpts
@@ -256,9 +264,8 @@ func Upsert[T interface {
 	var stmt = strpool.AcquireString()
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
+		pkName, _, _ := v.PK()
 		opt.omitFields = append(opt.omitFields, pkName)
-		columns = append(columns[:idx], columns[idx+1:]...)
 		// Don't include auto increment primary key on INSERT
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 
@@ -268,9 +275,7 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
+			args = append(args, insertValues(data[i])...)
 		}
 	case sequel.PrimaryKeyer:
 		pkName, _, _ := v.PK()
@@ -282,7 +287,7 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, data[i].Values()...)
+			args = append(args, insertValues(data[i])...)
 		}
 	case sequel.CompositeKeyer:
 		keyNames, _, _ := v.CompositeKey()
@@ -294,7 +299,7 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, data[i].Values()...)
+			args = append(args, insertValues(data[i])...)
 		}
 	default:
 		panic("unreachable")
@@ -321,15 +326,15 @@ func Upsert[T interface {
 			panic("unreachable")
 		}
 	}
+	if omitter, ok := any(model).(setOnUpsertOmitter); ok {
+		opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
+	}
+	opt.doNothing = opt.doNothing || !hasUpdate(columns, opt.omitFields)
 	if opt.doNothing {
 		stmt.WriteString(" DO NOTHING")
 	} else {
 		stmt.WriteString(" DO UPDATE SET ")
 		omitDict := make(map[string]struct{})
-		if omitter, ok := any(model).(setOnUpsertOmitter); ok {
-			opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
-		}
-		columns = model.Columns()
 		for i := range opt.omitFields {
 			omitDict[opt.omitFields[i]] = struct{}{}
 		}
@@ -347,6 +352,13 @@ func Upsert[T interface {
 		}
 		clear(omitDict)
 	}
+	if opt.doNothing {
+		// Existing records are not returned, so the returned rows don't match with the data
+		stmt.WriteByte(';')
+		result, err := db.ExecContext(ctx, stmt.String(), args...)
+		strpool.ReleaseString(stmt)
+		return result, err
+	}
 	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
 	rows, err := db.QueryContext(ctx, stmt.String(), args...)
 	strpool.ReleaseString(stmt) // Deallocate statement
@@ -361,6 +373,9 @@ func Upsert[T interface {
 		}
 		i++
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return sequel.NewRowsAffectedResult(i), rows.Close()
 }
 
@@ -397,11 +412,11 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		query, args := v.UpdateOneByPKStmt()
 		return db.ExecContext(ctx, query, args...)
 	case sequel.PrimaryKeyer:
-		pkName, pkIdx, pk := v.PK()
-		columns := model.Columns()
-		columns = append(columns[:pkIdx], columns[pkIdx+1:]...)
-		values := model.Values()
-		values = append(values[:pkIdx], append(values[pkIdx+1:], pk)...)
+		pkName, _, pk := v.PK()
+		columns, values := updateColumns(model, pkName)
+		if len(columns) == 0 {
+			columns, values = []string{pkName}, []any{pk}
+		}
 		stmt := strpool.AcquireString()
 		defer strpool.ReleaseString(stmt)
 		stmt.WriteString("UPDATE " + DbTable(model) + " SET " + columns[0] + " = " + wrapVar(1))
@@ -409,33 +424,28 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		for i := 1; i < noOfColumn; i++ {
 			stmt.WriteString("," + columns[i] + " = " + wrapVar(i+1))
 		}
-		stmt.WriteString(" WHERE " + pkName + " = " + wrapVar(noOfColumn+2) + ";")
+		stmt.WriteString(" WHERE " + pkName + " = " + wrapVar(noOfColumn+1) + ";")
 		return db.ExecContext(ctx, stmt.String(), append(values, pk)...)
 	case sequel.CompositeKeyer:
-		columns := model.Columns()
-		keyNames, keyIdxs, keys := v.CompositeKey()
-		values := model.Values()
-		sort.Ints(keyIdxs)
-		for i := len(keyIdxs) - 1; i >= 0; i-- {
-			columns = append(columns[:keyIdxs[i]], columns[keyIdxs[i]+1:]...)
-			values = append(values[:keyIdxs[i]], values[keyIdxs[i]+1:]...)
+		keyNames, _, keys := v.CompositeKey()
+		columns, values := updateColumns(model, keyNames...)
+		if len(columns) == 0 {
+			columns, values = keyNames, slices.Clone(keys)
 		}
-		noOfColumn := len(columns)
-		args := make([]any, 0, noOfColumn+len(keys))
 		stmt := strpool.AcquireString()
 		defer strpool.ReleaseString(stmt)
 		stmt.WriteString("UPDATE " + DbTable(model) + " SET " + columns[0] + " = $1")
+		noOfColumn := len(columns)
 		for i := 1; i < noOfColumn; i++ {
 			stmt.WriteString("," + columns[i] + " = " + wrapVar(i+1))
 		}
 		stmt.WriteString(" WHERE (" + strings.Join(keyNames, ",") + ") = (" + wrapVar(noOfColumn+1))
 		noOfKey := len(keyNames)
 		for i := 1; i < noOfKey; i++ {
-			stmt.WriteString("," + columns[i] + " = " + wrapVar(noOfColumn+i+1))
+			stmt.WriteString("," + wrapVar(noOfColumn+i+1))
 		}
 		stmt.WriteString(");")
-		args = append(args, values...)
-		return db.ExecContext(ctx, stmt.String(), append(args, keys...)...)
+		return db.ExecContext(ctx, stmt.String(), append(values, keys...)...)
 	default:
 		panic("unreachable")
 	}
@@ -524,317 +534,159 @@ type Pager[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]] struct {
 	stmt *PaginateStmt
 }
 
+// Prev iterates backward, from the cursor or else from the last record.
 func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.pages(ctx, db, false, cursor)
+}
+
+// Next iterates forward, from the cursor or else from the first record.
+func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.pages(ctx, db, true, cursor)
+}
+
+func (r *Pager[T, Ptr]) pages(ctx context.Context, db *sql.DB, forward bool, cursor []T) iter.Seq2[[]T, error] {
 	return func(yield func([]T, error) bool) {
 		var (
-			v         T
-			hasCursor bool
-			maxLimit  = r.stmt.Limit
+			from     Ptr
+			maxLimit = int(r.stmt.Limit)
 		)
 		if len(cursor) > 0 {
-			v = cursor[0]
-			hasCursor = true
+			v := cursor[0]
+			from = &v
+			if err := FindByPK[T](ctx, db, from); err != nil {
+				yield(nil, err)
+				return
+			}
 		}
-		blr := AcquireStmt()
-		defer ReleaseStmt(blr)
-
 		for {
-			if hasCursor {
-				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
-					yield(nil, err)
-					return
-				}
-			}
-
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
-			if r.stmt.Where != nil {
-				r.stmt.Where(blr)
-			}
-
-			if n := len(r.stmt.OrderBy); n > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
-				}
-
-				buf := strpool.AcquireString()
-				for i := 0; i < n; i++ {
-					orderedColumn := r.stmt.OrderBy[i]
-					columnName := orderedColumn.ColumnName()
-					value := values[colDict[columnName]]
-					if orderedColumn.Asc() {
-						// If ascending
-						blr.WriteString(columnName + " <= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " < " + blr.Var(value) + " OR ")
-					} else {
-						// If descending
-						blr.WriteString(columnName + " >= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " > " + blr.Var(value) + " OR ")
-					}
-				}
-				clear(colDict)
-				blr.WriteString("(" + buf.String())
-				strpool.ReleaseString(buf)
-			}
-
-			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") <= " + blr.Vars(vals) + ")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("(" + pkName + " <= " + blr.Var(val) + ")")
-				default:
-					panic("unreachable")
-				}
-			}
-
-			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
-					}
-				}
-				var (
-					suffix  = " DESC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if lastCol.Asc() {
-					suffix = " ASC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("(" + strings.Join(pkNames, ",") + ")" + suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
-				}
-			} else {
-				// If there is no order by clause,
-				// descending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("(" + strings.Join(pkNames, ",") + ") DESC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + " DESC")
-				default:
-					panic("unreachable")
-				}
-			}
 			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
-
-			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
-			blr.Reset()
+			data, err := r.fetch(ctx, db, forward, from, maxLimit+1)
 			if err != nil {
 				yield(nil, err)
 				return
 			}
-
-			data := make([]T, 0, r.stmt.Limit+1)
-			for rows.Next() {
-				var v T
-				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
-					rows.Close()
-					yield(nil, err)
-					return
-				}
-				data = append(data, v)
-			}
-			rows.Close()
-
-			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
-				if !yield(data, nil) {
-					return
-				}
+			if len(data) <= maxLimit {
+				yield(data, nil)
 				return
 			}
-
-			if !yield(data[:noOfRecord-1], nil) {
+			next := data[maxLimit] // Set next cursor
+			from = &next
+			if !yield(data[:maxLimit:maxLimit], nil) {
 				return
 			}
-
-			v = data[noOfRecord-1] // Set next cursor
-			data = nil             // Reset result
-			hasCursor = true
 		}
 	}
 }
 
-func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
-	return func(yield func([]T, error) bool) {
-		var (
-			v         T
-			hasCursor bool
-			maxLimit  = r.stmt.Limit
-		)
-		if len(cursor) > 0 {
-			v = cursor[0]
-			hasCursor = true
-		}
-		blr := AcquireStmt()
-		defer ReleaseStmt(blr)
-
-		for {
-			if hasCursor {
-				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
-					yield(nil, err)
-					return
-				}
-			}
-
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
-			if r.stmt.Where != nil {
-				r.stmt.Where(blr)
-			}
-
-			if len(r.stmt.OrderBy) > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
-				}
+// fetch returns the records of a page, the first one is the cursor.
+func (r *Pager[T, Ptr]) fetch(ctx context.Context, db *sql.DB, forward bool, cursor Ptr, limit int) ([]T, error) {
+	var (
+		v       T
+		keys    []string
+		values  []any
+		orderBy = slices.Clone(r.stmt.OrderBy)
+		asc     = len(orderBy) == 0 || orderBy[len(orderBy)-1].Asc()
+	)
+	if cursor != nil {
+		v = *cursor
+	}
+	switch vi := any(v).(type) {
+	case sequel.CompositeKeyer:
+		keys, _, values = vi.CompositeKey()
+	case sequel.PrimaryKeyer:
+		name, _, value := vi.PK()
+		keys, values = []string{name}, []any{value}
+	default:
+		panic("unreachable")
+	}
+	// The key is the tie-breaker
+	for i := range keys {
+		orderBy = append(orderBy, sequel.OrderByColumn(keys[i], asc))
+	}
 
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" AND ")
-					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " >= " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " <= " + blr.Var(val))
-					}
-				}
-				blr.WriteString(" AND (")
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" OR ")
-					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " > " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " < " + blr.Var(val))
-					}
-				}
-				clear(colDict)
-				blr.WriteString(" OR ")
+	blr := AcquireStmt()
+	defer ReleaseStmt(blr)
+	blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v))
+	if r.stmt.Where != nil {
+		blr.WriteString(" WHERE (")
+		r.stmt.Where(blr)
+		blr.WriteByte(')')
+	}
+	if cursor != nil {
+		if r.stmt.Where != nil {
+			blr.WriteString(" AND ")
+		} else {
+			blr.WriteString(" WHERE ")
+		}
+		// Compare the columns with those of the cursor, in priority order
+		for i := range orderBy {
+			name, op := orderBy[i].ColumnName(), " < "
+			asc := orderBy[i].Asc() == forward
+			if asc {
+				op = " > "
 			}
-
-			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") >= " + blr.Vars(vals) + ")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("(" + pkName + " >= " + blr.Var(val) + ")")
-				default:
-					panic("unreachable")
+			if n := i - len(r.stmt.OrderBy); n >= 0 {
+				if n == len(keys)-1 {
+					// The cursor itself is included
+					blr.WriteString(name + op[:2] + "= " + blr.Var(values[n]))
+				} else {
+					blr.WriteString("(" + name + op + blr.Var(values[n]) + " OR (" + name + " = " + blr.Var(values[n]) + " AND ")
 				}
+				continue
 			}
-
-			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
+			value := func() string {
+				str := "(SELECT " + name + " FROM " + DbTable(v) + " WHERE "
+				for j := range keys {
+					if j > 0 {
+						str += " AND "
 					}
+					str += keys[j] + " = " + blr.Var(values[j])
 				}
-				var (
-					suffix  = " ASC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if !lastCol.Asc() {
-					suffix = " DESC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("(" + strings.Join(pkNames, ",") + ")" + suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
-				}
-			} else {
-				// If there is no order by clause,
-				// ascending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("(" + strings.Join(pkNames, ",") + ") ASC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName)
-				default:
-					panic("unreachable")
-				}
+				return str + ")"
 			}
-			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
-
-			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
-			blr.Reset()
-			if err != nil {
-				yield(nil, err)
-				return
-			}
-
-			data := make([]T, 0, r.stmt.Limit+1)
-			for rows.Next() {
-				var v T
-				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
-					rows.Close()
-					yield(nil, err)
-					return
-				}
-				data = append(data, v)
-			}
-			rows.Close()
-
-			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
-				if !yield(data, nil) {
-					return
-				}
-				return
+			blr.WriteString("(" + name + op + value())
+			nullsLast := asc
+			if nullsLast {
+				blr.WriteString(" OR (" + name + " IS NULL AND " + value() + " IS NOT NULL)")
+			} else {
+				blr.WriteString(" OR (" + name + " IS NOT NULL AND " + value() + " IS NULL)")
 			}
+			blr.WriteString(" OR ((" + name + " = " + value() + " OR (" + name + " IS NULL AND " + value() + " IS NULL)) AND ")
+		}
+		blr.WriteString(strings.Repeat("))", len(orderBy)-1))
+	}
+	for i := range orderBy {
+		if i > 0 {
+			blr.WriteByte(',')
+		} else {
+			blr.WriteString(" ORDER BY ")
+		}
+		if orderBy[i].Asc() == forward {
+			blr.WriteString(orderBy[i].ColumnName() + " ASC")
+		} else {
+			blr.WriteString(orderBy[i].ColumnName() + " DESC")
+		}
+	}
+	blr.WriteString(" LIMIT " + strconv.Itoa(limit) + ";")
 
-			if !yield(data[:noOfRecord-1], nil) {
-				return
-			}
+	rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
 
-			v = data[noOfRecord-1] // Set next cursor
-			data = nil             // Reset result
-			hasCursor = true
+	data := []T{}
+	for rows.Next() {
+		var v T
+		if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
+			return nil, err
 		}
+		data = append(data, v)
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
 	}
+	return data, rows.Close()
 }
 
 type SelectStmt struct {
@@ -919,6 +771,9 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 		}
 		result = append(result, v)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	if err := rows.Close(); err != nil {
 		return nil, err
 	}
@@ -955,6 +810,7 @@ func QueryOneStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.
 		case sequel.Tabler:
 			blr.WriteString(" FROM " + DbTable(vj))
 		default:
+			ReleaseStmt(blr)
 			return nil, fmt.Errorf("missing table name for model %T", v)
 		}
 	}
@@ -1014,7 +870,7 @@ func ExecStmt[T any, Stmt interface {
 
 	switch vi := any(stmt).(type) {
 	case UpdateStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
+		if vt, ok := any(v).(sequel.Tabler); ok && vi.Table == "" {
 			blr.WriteString("UPDATE " + DbTable(vt))
 		} else {
 			blr.WriteString("UPDATE " + dbName(v) + vi.Table)
@@ -1046,7 +902,7 @@ func ExecStmt[T any, Stmt interface {
 			}
 		}
 	case DeleteStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
+		if vt, ok := any(v).(sequel.Tabler); ok && vi.FromTable == "" {
 			blr.WriteString("DELETE FROM " + DbTable(vt))
 		} else {
 			blr.WriteString("DELETE FROM " + dbName(v) + vi.FromTable)
@@ -1161,28 +1017,32 @@ func (s *SqlStmt) Format(f fmt.State, verb rune) {
 	}
 
 	var (
-		args = make([]any, len(s.args))
-		idx  int
-		i    = 1
+		buf = make([]byte, 0, len(str)*2)
+		pos int
 	)
-
-	copy(args, s.args)
-
-	for {
-		placeholder := wrapVar(i)
-		idx = strings.Index(str, placeholder)
-		if idx < 0 {
-			f.Write(unsafe.Slice(unsafe.StringData(str), len(str)))
-			break
+	for i := 0; i < len(str); {
+		if n := skipText(str[i:]); n > 0 {
+			buf = append(buf, str[i:i+n]...)
+			i += n
+			continue
 		}
-
-		f.Write([]byte(str[:idx]))
-		v := strf(args[0])
-		f.Write(unsafe.Slice(unsafe.StringData(v), len(v)))
-		str = str[idx+len(placeholder):]
-		args = args[1:]
-		i++
+		n := 0
+		if strings.HasPrefix(str[i:], `$`) && (i == 0 || !isIdentByte(str[i-1])) {
+			n = len(`$`)
+			for i+n < len(str) && str[i+n] >= '0' && str[i+n] <= '9' {
+				n++
+			}
+			pos, _ = strconv.Atoi(str[i+len(`$`) : i+n])
+		}
+		if n > 0 && pos > 0 && pos <= len(s.args) {
+			buf = append(buf, strf(s.args[pos-1])...)
+		} else {
+			n = max(n, 1)
+			buf = append(buf, str[i:i+n]...)
+		}
+		i += n
 	}
+	f.Write(buf)
 }
 
 func (s *SqlStmt) Reset() {
@@ -1205,6 +1065,53 @@ func TableColumns[T sequel.Columner](model T) []string {
 	return model.Columns()
 }
 
+// insertColumns returns the columns to insert, without the auto increment key
+// and the columns which are readonly.
+func insertColumns[T sequel.Columner](model T) []string {
+	if v, ok := any(model).(sequel.InsertColumner); ok {
+		return v.InsertColumns()
+	}
+	columns := model.Columns()
+	if v, ok := any(model).(sequel.AutoIncrKeyer); ok {
+		_, idx, _ := v.PK()
+		return slices.Delete(slices.Clone(columns), idx, idx+1)
+	}
+	return columns
+}
+
+// insertValues returns the values of the columns from insertColumns.
+func insertValues[T sequel.Valuer](model T) []any {
+	values := model.Values()
+	if _, ok := any(model).(sequel.InsertColumner); ok {
+		return values
+	}
+	if v, ok := any(model).(sequel.AutoIncrKeyer); ok {
+		_, idx, _ := v.PK()
+		return slices.Delete(slices.Clone(values), idx, idx+1)
+	}
+	return values
+}
+
+// updateColumns returns the columns to update, without the keys, and their values.
+func updateColumns[T sequel.ColumnValuer](model T, keys ...string) ([]string, []any) {
+	columns, values := insertColumns(model), insertValues(model)
+	cols, args := make([]string, 0, len(columns)), make([]any, 0, len(columns)+len(keys))
+	for i := range columns {
+		if !slices.Contains(keys, columns[i]) {
+			cols = append(cols, columns[i])
+			args = append(args, values[i])
+		}
+	}
+	return cols, args
+}
+
+// hasUpdate tells whether any of the columns is not omitted.
+func hasUpdate(columns, omitted []string) bool {
+	return slices.ContainsFunc(columns, func(column string) bool {
+		return !slices.Contains(omitted, column)
+	})
+}
+
 func dbName(model any) string {
 	if v, ok := model.(sequel.Databaser); ok {
 		return v.DatabaseName() + "."
@@ -1216,42 +1123,111 @@ func wrapVar(i int) string {
 	return `$` + strconv.Itoa(i)
 }
 
+// skipText returns the length of the string literal, quoted identifier or
+// comment that s starts with, or zero. There are no placeholders in these.
+func skipText(s string) int {
+	switch {
+	case strings.HasPrefix(s, "--"):
+		if i := strings.IndexByte(s, '\n'); i >= 0 {
+			return i
+		}
+		return len(s)
+	case strings.HasPrefix(s, "/*"):
+		if i := strings.Index(s[2:], "*/"); i >= 0 {
+			return i + 4
+		}
+		return len(s)
+	}
+	i, escape := 1, false
+	if len(s) > 1 && (s[0] == 'E' || s[0] == 'e') && s[1] == '\'' {
+		i, escape = 2, true
+	}
+	end := s[i-1]
+	if end != '\'' && end != '"' {
+		return 0
+	}
+	for ; i < len(s); i++ {
+		if s[i] == end {
+			return i + 1
+		}
+		if escape && end != '`' && s[i] == '\\' {
+			i++
+		}
+	}
+	return len(s)
+}
+
+func isIdentByte(c byte) bool {
+	return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
+}
+
+// quote returns the string literal of s.
+func quote(s string) string {
+	return pgutil.Quote(s)
+}
+
+func formatFloat(f float64) string {
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		return quote(strconv.FormatFloat(f, 'g', -1, 64))
+	}
+	return strconv.FormatFloat(f, 'g', -1, 64)
+}
+
+// strf returns the literal of the value.
 func strf(v any) string {
 	switch vi := v.(type) {
 	case nil:
 		return "NULL"
 	case string:
-		return pgutil.Quote(vi)
+		return quote(vi)
 	case []byte:
-		return pgutil.Quote(unsafe.String(unsafe.SliceData(vi), len(vi)))
+		if vi == nil {
+			return "NULL"
+		}
+		return quote(string(vi))
 	case bool:
 		return strconv.FormatBool(vi)
 	case int64:
 		return strconv.FormatInt(vi, 10)
 	case float64:
-		return strconv.FormatFloat(vi, 'f', 10, 64)
+		return formatFloat(vi)
 	case time.Time:
-		return strconv.Quote(vi.Format(time.RFC3339))
-	case sql.RawBytes:
-		return unsafe.String(unsafe.SliceData(vi), len(vi))
+		return quote(vi.Format(time.RFC3339Nano))
 	case driver.Valuer:
-		val, _ := vi.Value()
+		rv := reflect.ValueOf(v)
+		if rv.Kind() == reflect.Pointer && rv.IsNil() && rv.Type().Elem().Implements(reflect.TypeFor[driver.Valuer]()) {
+			return "NULL"
+		}
+		val, err := vi.Value()
+		if err != nil {
+			return quote(err.Error())
+		}
+		if _, ok := val.(driver.Valuer); ok {
+			return quote(fmt.Sprint(val))
+		}
 		return strf(val)
-	default:
-		vt := reflect.ValueOf(v)
-		switch vt.Kind() {
-		case reflect.String:
-			return pgutil.Quote(vt.String())
-		case reflect.Bool:
-			return strconv.FormatBool(vt.Bool())
-		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-			return strconv.FormatInt(vt.Int(), 10)
-		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			return strconv.FormatUint(vt.Uint(), 10)
-		case reflect.Float32, reflect.Float64:
-			return strconv.FormatFloat(vt.Float(), 'f', 10, 64)
-		default:
-			panic("unreachable")
+	}
+	vt := reflect.ValueOf(v)
+	switch vt.Kind() {
+	case reflect.String:
+		return quote(vt.String())
+	case reflect.Bool:
+		return strconv.FormatBool(vt.Bool())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return strconv.FormatInt(vt.Int(), 10)
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return strconv.FormatUint(vt.Uint(), 10)
+	case reflect.Float32, reflect.Float64:
+		return formatFloat(vt.Float())
+	case reflect.Pointer:
+		if vt.IsNil() {
+			return "NULL"
+		}
+		return strf(vt.Elem().Interface())
+	case reflect.Slice:
+		if vt.Type().Elem().Kind() == reflect.Uint8 {
+			return strf(vt.Bytes())
 		}
 	}
+	return quote(fmt.Sprint(v))
 }
diff --git a/examples/db/postgres/operator.go b/examples/db/postgres/operator.go
index b9e00bc..2a43ca3 100755
--- a/examples/db/postgres/operator.go
+++ b/examples/db/postgres/operator.go
@@ -62,6 +62,10 @@ func NotEqual[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 
 func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
+		if len(values) == 0 {
+			w.WriteString("1 = 0")
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
@@ -83,6 +87,10 @@ func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 
 func NotIn[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
+		if len(values) == 0 {
+			w.WriteString("1 = 1")
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
diff --git a/examples/db/sqlite/db.go b/examples/db/sqlite/db.go
index 76453d4..c106896 100755
--- a/examples/db/sqlite/db.go
+++ b/examples/db/sqlite/db.go
@@ -8,8 +8,9 @@ import (
 	"database/sql/driver"
 	"fmt"
 	"iter"
+	"math"
 	"reflect"
-	"sort"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -46,7 +47,7 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 		query, args := v.InsertOneStmt()
 		return db.ExecContext(ctx, query, args...)
 	default:
-		columns, args := model.Columns(), model.Values()
+		columns, args := insertColumns(model), insertValues(model)
 		query := "INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat("?,", len(columns)-1) + "?);"
 		return db.ExecContext(ctx, query, args...)
 	}
@@ -60,13 +61,11 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 	}
 
 	model := data[0]
-	columns := model.Columns()
+	columns := insertColumns(model)
 	stmt := strpool.AcquireString()
 
-	switch v := any(model).(type) {
+	switch any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		_, idx, _ := v.PK()
-		columns = append(columns[:idx], columns[idx+1:]...)
 		noOfCols := len(columns)
 		cols := strings.Join(columns, ",")
 		args := make([]any, 0, noOfCols*noOfData)
@@ -78,9 +77,7 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 			} else {
 				stmt.WriteString(placeholder)
 			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
+			args = append(args, insertValues(data[i])...)
 		}
 		stmt.WriteByte(';')
 		result, err := db.ExecContext(ctx, stmt.String(), args...)
@@ -92,10 +89,10 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 		args := make([]any, 0, noOfCols*noOfData)
 		placeholder := "(" + strings.Repeat(",?", noOfCols)[1:] + ")"
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES " + placeholder)
-		args = append(args, data[0].Values()...)
+		args = append(args, insertValues(data[0])...)
 		for i := 1; i < noOfData; i++ {
 			stmt.WriteString("," + placeholder)
-			args = append(args, data[i].Values()...)
+			args = append(args, insertValues(data[i])...)
 		}
 		stmt.WriteByte(';')
 		result, err := db.ExecContext(ctx, stmt.String(), args...)
@@ -104,38 +101,48 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 	}
 }
 
+const (
+	insertIgnore = "INSERT OR IGNORE INTO "
+	onConflict   = " ON CONFLICT DO UPDATE SET "
+)
+
+// newValue is the value which is proposed for insertion.
+func newValue(column string) string {
+	return "excluded." + column
+}
+
 func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Context, db *sql.DB, model Ptr, override bool, omittedFields ...string) (sql.Result, error) {
 	stmt := strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
 	switch v := any(model).(type) {
 	case sequel.PrimaryKeyer:
 		pkName, idx, _ := v.PK()
-		columns := model.Columns()
-		if !override {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
+		columns := insertColumns(model)
+		if !override || !hasUpdate(columns, append(omittedFields, pkName)) {
+			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
 			omitDict := map[string]struct{}{pkName: {}}
 			for i := range omittedFields {
 				omitDict[omittedFields[i]] = struct{}{}
 			}
 			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ")" + onConflict)
 			first := true
 			for i := range columns {
 				if _, ok := omitDict[columns[i]]; ok {
 					continue
 				}
 				if first {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
+					stmt.WriteString(columns[i] + " =" + newValue(columns[i]))
 				} else {
-					stmt.WriteString("," + columns[i] + " =VALUES(" + columns[i] + ")")
+					stmt.WriteString("," + columns[i] + " =" + newValue(columns[i]))
 				}
 				first = false
 			}
 			clear(omitDict)
 		}
 		if _, ok := any(model).(sequel.AutoIncrKeyer); ok {
-			result, err := db.ExecContext(ctx, stmt.String(), model.Values()...)
+			result, err := db.ExecContext(ctx, stmt.String(), insertValues(model)...)
 			if err != nil {
 				return nil, err
 			}
@@ -155,36 +162,38 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 			}
 			return result, nil
 		}
-		return db.ExecContext(ctx, stmt.String(), model.Values()...)
+		return db.ExecContext(ctx, stmt.String(), insertValues(model)...)
 	case sequel.CompositeKeyer:
-		names, idxs, _ := v.CompositeKey()
-		columns := model.Columns()
-		if !override {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
+		names, _, _ := v.CompositeKey()
+		columns := insertColumns(model)
+		if !override || !hasUpdate(columns, append(omittedFields, names...)) {
+			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
+			// Exclude composite key, don't update it
 			dict := make(map[string]struct{})
-			for i := range append(names, omittedFields...) {
+			for i := range names {
+				dict[names[i]] = struct{}{}
+			}
+			for i := range omittedFields {
 				dict[omittedFields[i]] = struct{}{}
 			}
 			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
-			// Exclude composite key, don't update it
-			for i := len(idxs) - 1; i >= 0; i-- {
-				columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
-			}
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ")" + onConflict)
+			first := true
 			for i := range columns {
 				if _, ok := dict[columns[i]]; ok {
 					continue
 				}
-				if i < noOfCols-1 {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + "),")
+				if first {
+					stmt.WriteString(columns[i] + " =" + newValue(columns[i]))
 				} else {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
+					stmt.WriteString("," + columns[i] + " =" + newValue(columns[i]))
 				}
+				first = false
 			}
 			clear(dict)
 		}
-		return db.ExecContext(ctx, stmt.String(), model.Values()...)
+		return db.ExecContext(ctx, stmt.String(), insertValues(model)...)
 	default:
 		panic("unreachable")
 	}
@@ -202,7 +211,7 @@ func Upsert[T interface {
 
 	var (
 		model    = data[0]
-		columns  = model.Columns()
+		columns  = insertColumns(model)
 		noOfCols = len(columns)
 		args     = make([]any, 0, noOfCols*noOfData)
 	)
@@ -211,14 +220,14 @@ func Upsert[T interface {
 	defer strpool.ReleaseString(stmt)
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
+		pkName, _, _ := v.PK()
 		omittedFields = append(omittedFields, pkName)
+		override = override && hasUpdate(columns, omittedFields)
 		// Don't include auto increment primary key on INSERT
-		columns = append(columns[:idx], columns[idx+1:]...)
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		placeholder := ",(" + strings.Repeat(",?", noOfCols)[1:] + ")"
 		for i := 0; i < noOfData; i++ {
@@ -227,17 +236,16 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(placeholder[1:])
 			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
+			args = append(args, insertValues(data[i])...)
 		}
 	case sequel.PrimaryKeyer:
 		pkName, _, _ := v.PK()
 		omittedFields = append(omittedFields, pkName)
+		override = override && hasUpdate(columns, omittedFields)
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		for i := 0; i < noOfData; i++ {
 			if i > 0 {
@@ -245,13 +253,17 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, data[i].Values()...)
+			args = append(args, insertValues(data[i])...)
 		}
 	case sequel.CompositeKeyer:
+		// Exclude composite key, don't update it
+		keyNames, _, _ := v.CompositeKey()
+		omittedFields = append(omittedFields, keyNames...)
+		override = override && hasUpdate(columns, omittedFields)
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		for i := 0; i < noOfData; i++ {
 			if i > 0 {
@@ -259,16 +271,11 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, data[i].Values()...)
-		}
-		_, idxs, _ := v.CompositeKey()
-		// Exclude primary key, don't update it
-		for i := len(idxs) - 1; i >= 0; i-- {
-			columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
+			args = append(args, insertValues(data[i])...)
 		}
 	}
 	if override {
-		stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
+		stmt.WriteString(onConflict)
 		// Don't update primary key when we do upsert
 		omitDict := map[string]struct{}{}
 		for i := range omittedFields {
@@ -281,9 +288,9 @@ func Upsert[T interface {
 				continue
 			}
 			if first {
-				stmt.WriteString(columns[i] + "=VALUES(" + columns[i] + ")")
+				stmt.WriteString(columns[i] + "=" + newValue(columns[i]))
 			} else {
-				stmt.WriteString("," + columns[i] + "=VALUES(" + columns[i] + ")")
+				stmt.WriteString("," + columns[i] + "=" + newValue(columns[i]))
 			}
 			first = false
 		}
@@ -317,25 +324,20 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		query, args := v.UpdateOneByPKStmt()
 		return db.ExecContext(ctx, query, args...)
 	case sequel.PrimaryKeyer:
-		pkName, pkIdx, pk := v.PK()
-		columns := model.Columns()
-		columns = append(columns[:pkIdx], columns[pkIdx+1:]...)
-		values := model.Values()
-		values = append(values[:pkIdx], append(values[pkIdx+1:], pk)...)
+		pkName, _, pk := v.PK()
+		columns, values := updateColumns(model, pkName)
+		if len(columns) == 0 {
+			columns, values = []string{pkName}, []any{pk}
+		}
 		return db.ExecContext(ctx, "UPDATE "+DbTable(model)+" SET "+strings.Join(columns, " = ?,")+" = ? WHERE "+pkName+" = ?;", append(values, pk)...)
 	case sequel.CompositeKeyer:
-		columns := model.Columns()
-		keyNames, keyIdxs, keys := v.CompositeKey()
-		values := model.Values()
-		sort.Ints(keyIdxs)
-		for i := len(keyIdxs) - 1; i >= 0; i-- {
-			columns = append(columns[:keyIdxs[i]], columns[keyIdxs[i]+1:]...)
-			values = append(values[:keyIdxs[i]], values[keyIdxs[i]+1:]...)
+		keyNames, _, keys := v.CompositeKey()
+		columns, values := updateColumns(model, keyNames...)
+		if len(columns) == 0 {
+			columns, values = keyNames, slices.Clone(keys)
 		}
-		noOfColumn := len(columns)
-		args := make([]any, 0, noOfColumn+len(keys))
 		query := "UPDATE " + DbTable(model) + " SET " + strings.Join(columns, " = ?,") + " = ? WHERE (" + strings.Join(keyNames, ",") + ") = (?" + strings.Repeat(",?", len(keyNames)-1) + ");"
-		return db.ExecContext(ctx, query, append(args, keys...)...)
+		return db.ExecContext(ctx, query, append(values, keys...)...)
 	default:
 		panic("unreachable")
 	}
@@ -406,317 +408,159 @@ type Pager[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]] struct {
 	stmt *PaginateStmt
 }
 
+// Prev iterates backward, from the cursor or else from the last record.
 func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.pages(ctx, db, false, cursor)
+}
+
+// Next iterates forward, from the cursor or else from the first record.
+func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.pages(ctx, db, true, cursor)
+}
+
+func (r *Pager[T, Ptr]) pages(ctx context.Context, db *sql.DB, forward bool, cursor []T) iter.Seq2[[]T, error] {
 	return func(yield func([]T, error) bool) {
 		var (
-			v         T
-			hasCursor bool
-			maxLimit  = r.stmt.Limit
+			from     Ptr
+			maxLimit = int(r.stmt.Limit)
 		)
 		if len(cursor) > 0 {
-			v = cursor[0]
-			hasCursor = true
+			v := cursor[0]
+			from = &v
+			if err := FindByPK[T](ctx, db, from); err != nil {
+				yield(nil, err)
+				return
+			}
 		}
-		blr := AcquireStmt()
-		defer ReleaseStmt(blr)
-
 		for {
-			if hasCursor {
-				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
-					yield(nil, err)
-					return
-				}
-			}
-
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
-			if r.stmt.Where != nil {
-				r.stmt.Where(blr)
-			}
-
-			if n := len(r.stmt.OrderBy); n > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
-				}
-
-				buf := strpool.AcquireString()
-				for i := 0; i < n; i++ {
-					orderedColumn := r.stmt.OrderBy[i]
-					columnName := orderedColumn.ColumnName()
-					value := values[colDict[columnName]]
-					if orderedColumn.Asc() {
-						// If ascending
-						blr.WriteString(columnName + " <= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " < " + blr.Var(value) + " OR ")
-					} else {
-						// If descending
-						blr.WriteString(columnName + " >= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " > " + blr.Var(value) + " OR ")
-					}
-				}
-				clear(colDict)
-				blr.WriteString("(" + buf.String())
-				strpool.ReleaseString(buf)
-			}
-
-			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") <= " + blr.Vars(vals) + ")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("(" + pkName + " <= " + blr.Var(val) + ")")
-				default:
-					panic("unreachable")
-				}
-			}
-
-			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
-					}
-				}
-				var (
-					suffix  = " DESC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if lastCol.Asc() {
-					suffix = " ASC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("(" + strings.Join(pkNames, ",") + ")" + suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
-				}
-			} else {
-				// If there is no order by clause,
-				// descending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("(" + strings.Join(pkNames, ",") + ") DESC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + " DESC")
-				default:
-					panic("unreachable")
-				}
-			}
 			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
-
-			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
-			blr.Reset()
+			data, err := r.fetch(ctx, db, forward, from, maxLimit+1)
 			if err != nil {
 				yield(nil, err)
 				return
 			}
-
-			data := make([]T, 0, r.stmt.Limit+1)
-			for rows.Next() {
-				var v T
-				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
-					rows.Close()
-					yield(nil, err)
-					return
-				}
-				data = append(data, v)
-			}
-			rows.Close()
-
-			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
-				if !yield(data, nil) {
-					return
-				}
+			if len(data) <= maxLimit {
+				yield(data, nil)
 				return
 			}
-
-			if !yield(data[:noOfRecord-1], nil) {
+			next := data[maxLimit] // Set next cursor
+			from = &next
+			if !yield(data[:maxLimit:maxLimit], nil) {
 				return
 			}
-
-			v = data[noOfRecord-1] // Set next cursor
-			data = nil             // Reset result
-			hasCursor = true
 		}
 	}
 }
 
-func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
-	return func(yield func([]T, error) bool) {
-		var (
-			v         T
-			hasCursor bool
-			maxLimit  = r.stmt.Limit
-		)
-		if len(cursor) > 0 {
-			v = cursor[0]
-			hasCursor = true
-		}
-		blr := AcquireStmt()
-		defer ReleaseStmt(blr)
-
-		for {
-			if hasCursor {
-				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
-					yield(nil, err)
-					return
-				}
-			}
-
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
-			if r.stmt.Where != nil {
-				r.stmt.Where(blr)
-			}
-
-			if len(r.stmt.OrderBy) > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
-				}
+// fetch returns the records of a page, the first one is the cursor.
+func (r *Pager[T, Ptr]) fetch(ctx context.Context, db *sql.DB, forward bool, cursor Ptr, limit int) ([]T, error) {
+	var (
+		v       T
+		keys    []string
+		values  []any
+		orderBy = slices.Clone(r.stmt.OrderBy)
+		asc     = len(orderBy) == 0 || orderBy[len(orderBy)-1].Asc()
+	)
+	if cursor != nil {
+		v = *cursor
+	}
+	switch vi := any(v).(type) {
+	case sequel.CompositeKeyer:
+		keys, _, values = vi.CompositeKey()
+	case sequel.PrimaryKeyer:
+		name, _, value := vi.PK()
+		keys, values = []string{name}, []any{value}
+	default:
+		panic("unreachable")
+	}
+	// The key is the tie-breaker
+	for i := range keys {
+		orderBy = append(orderBy, sequel.OrderByColumn(keys[i], asc))
+	}
 
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" AND ")
-					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " >= " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " <= " + blr.Var(val))
-					}
-				}
-				blr.WriteString(" AND (")
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" OR ")
-					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " > " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " < " + blr.Var(val))
-					}
-				}
-				clear(colDict)
-				blr.WriteString(" OR ")
+	blr := AcquireStmt()
+	defer ReleaseStmt(blr)
+	blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v))
+	if r.stmt.Where != nil {
+		blr.WriteString(" WHERE (")
+		r.stmt.Where(blr)
+		blr.WriteByte(')')
+	}
+	if cursor != nil {
+		if r.stmt.Where != nil {
+			blr.WriteString(" AND ")
+		} else {
+			blr.WriteString(" WHERE ")
+		}
+		// Compare the columns with those of the cursor, in priority order
+		for i := range orderBy {
+			name, op := orderBy[i].ColumnName(), " < "
+			asc := orderBy[i].Asc() == forward
+			if asc {
+				op = " > "
 			}
-
-			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") >= " + blr.Vars(vals) + ")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("(" + pkName + " >= " + blr.Var(val) + ")")
-				default:
-					panic("unreachable")
+			if n := i - len(r.stmt.OrderBy); n >= 0 {
+				if n == len(keys)-1 {
+					// The cursor itself is included
+					blr.WriteString(name + op[:2] + "= " + blr.Var(values[n]))
+				} else {
+					blr.WriteString("(" + name + op + blr.Var(values[n]) + " OR (" + name + " = " + blr.Var(values[n]) + " AND ")
 				}
+				continue
 			}
-
-			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
+			value := func() string {
+				str := "(SELECT " + name + " FROM " + DbTable(v) + " WHERE "
+				for j := range keys {
+					if j > 0 {
+						str += " AND "
 					}
+					str += keys[j] + " = " + blr.Var(values[j])
 				}
-				var (
-					suffix  = " ASC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if !lastCol.Asc() {
-					suffix = " DESC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("(" + strings.Join(pkNames, ",") + ")" + suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
-				}
-			} else {
-				// If there is no order by clause,
-				// ascending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("(" + strings.Join(pkNames, ",") + ") ASC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName)
-				default:
-					panic("unreachable")
-				}
-			}
-			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
-
-			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
-			blr.Reset()
-			if err != nil {
-				yield(nil, err)
-				return
-			}
-
-			data := make([]T, 0, r.stmt.Limit+1)
-			for rows.Next() {
-				var v T
-				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
-					rows.Close()
-					yield(nil, err)
-					return
-				}
-				data = append(data, v)
+				return str + ")"
 			}
-			rows.Close()
-
-			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
-				if !yield(data, nil) {
-					return
-				}
-				return
+			blr.WriteString("(" + name + op + value())
+			nullsLast := !asc
+			if nullsLast {
+				blr.WriteString(" OR (" + name + " IS NULL AND " + value() + " IS NOT NULL)")
+			} else {
+				blr.WriteString(" OR (" + name + " IS NOT NULL AND " + value() + " IS NULL)")
 			}
+			blr.WriteString(" OR ((" + name + " = " + value() + " OR (" + name + " IS NULL AND " + value() + " IS NULL)) AND ")
+		}
+		blr.WriteString(strings.Repeat("))", len(orderBy)-1))
+	}
+	for i := range orderBy {
+		if i > 0 {
+			blr.WriteByte(',')
+		} else {
+			blr.WriteString(" ORDER BY ")
+		}
+		if orderBy[i].Asc() == forward {
+			blr.WriteString(orderBy[i].ColumnName() + " ASC")
+		} else {
+			blr.WriteString(orderBy[i].ColumnName() + " DESC")
+		}
+	}
+	blr.WriteString(" LIMIT " + strconv.Itoa(limit) + ";")
 
-			if !yield(data[:noOfRecord-1], nil) {
-				return
-			}
+	rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
 
-			v = data[noOfRecord-1] // Set next cursor
-			data = nil             // Reset result
-			hasCursor = true
+	data := []T{}
+	for rows.Next() {
+		var v T
+		if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
+			return nil, err
 		}
+		data = append(data, v)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+	return data, rows.Close()
 }
 
 type SelectStmt struct {
@@ -781,6 +625,9 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 	}
 	if stmt.Limit > 0 {
 		blr.WriteString(" LIMIT " + strconv.Itoa((int)(stmt.Limit)))
+	} else if stmt.Offset > 0 {
+		// An offset is only allowed after a limit
+		blr.WriteString(" LIMIT 9223372036854775807")
 	}
 	if stmt.Offset > 0 {
 		blr.WriteString(" OFFSET " + strconv.FormatUint(stmt.Offset, 10))
@@ -801,6 +648,9 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 		}
 		result = append(result, v)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	if err := rows.Close(); err != nil {
 		return nil, err
 	}
@@ -837,6 +687,7 @@ func QueryOneStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.
 		case sequel.Tabler:
 			blr.WriteString(" FROM " + DbTable(vj))
 		default:
+			ReleaseStmt(blr)
 			return nil, fmt.Errorf("missing table name for model %T", v)
 		}
 	}
@@ -898,7 +749,7 @@ func ExecStmt[T any, Stmt interface {
 
 	switch vi := any(stmt).(type) {
 	case UpdateStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
+		if vt, ok := any(v).(sequel.Tabler); ok && vi.Table == "" {
 			blr.WriteString("UPDATE " + DbTable(vt))
 		} else {
 			blr.WriteString("UPDATE " + dbName(v) + vi.Table)
@@ -933,7 +784,7 @@ func ExecStmt[T any, Stmt interface {
 			blr.WriteString(" LIMIT " + strconv.Itoa((int)(vi.Limit)))
 		}
 	case DeleteStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
+		if vt, ok := any(v).(sequel.Tabler); ok && vi.FromTable == "" {
 			blr.WriteString("DELETE FROM " + DbTable(vt))
 		} else {
 			blr.WriteString("DELETE FROM " + dbName(v) + vi.FromTable)
@@ -1002,7 +853,7 @@ func (s *SqlStmt) Var(value any) string {
 func (s *SqlStmt) Vars(values []any) string {
 	noOfLen := len(values)
 	s.args = append(s.args, values...)
-	return "(" + strings.Repeat(",?", noOfLen)[1:] + ")"
+	return "(" + strings.TrimPrefix(strings.Repeat(",?", noOfLen), ",") + ")"
 }
 
 func (s *SqlStmt) Write(p []byte) (int, error) {
@@ -1039,27 +890,29 @@ func (s *SqlStmt) Format(f fmt.State, verb rune) {
 	}
 
 	var (
-		args = make([]any, len(s.args))
-		idx  int
-		i    = 1
+		buf = make([]byte, 0, len(str)*2)
+		pos int
 	)
-
-	copy(args, s.args)
-
-	for {
-		idx = strings.Index(str, "?")
-		if idx < 0 {
-			f.Write(unsafe.Slice(unsafe.StringData(str), len(str)))
-			break
+	for i := 0; i < len(str); {
+		if n := skipText(str[i:]); n > 0 {
+			buf = append(buf, str[i:i+n]...)
+			i += n
+			continue
 		}
-
-		f.Write([]byte(str[:idx]))
-		v := strf(args[0])
-		f.Write(unsafe.Slice(unsafe.StringData(v), len(v)))
-		str = str[idx+1:]
-		args = args[1:]
-		i++
+		n := 0
+		if strings.HasPrefix(str[i:], `?`) {
+			pos++
+			n = len(`?`)
+		}
+		if n > 0 && pos > 0 && pos <= len(s.args) {
+			buf = append(buf, strf(s.args[pos-1])...)
+		} else {
+			n = max(n, 1)
+			buf = append(buf, str[i:i+n]...)
+		}
+		i += n
 	}
+	f.Write(buf)
 }
 
 func (s *SqlStmt) Reset() {
@@ -1082,6 +935,53 @@ func TableColumns[T sequel.Columner](model T) []string {
 	return model.Columns()
 }
 
+// insertColumns returns the columns to insert, without the auto increment key
+// and the columns which are readonly.
+func insertColumns[T sequel.Columner](model T) []string {
+	if v, ok := any(model).(sequel.InsertColumner); ok {
+		return v.InsertColumns()
+	}
+	columns := model.Columns()
+	if v, ok := any(model).(sequel.AutoIncrKeyer); ok {
+		_, idx, _ := v.PK()
+		return slices.Delete(slices.Clone(columns), idx, idx+1)
+	}
+	return columns
+}
+
+// insertValues returns the values of the columns from insertColumns.
+func insertValues[T sequel.Valuer](model T) []any {
+	values := model.Values()
+	if _, ok := any(model).(sequel.InsertColumner); ok {
+		return values
+	}
+	if v, ok := any(model).(sequel.AutoIncrKeyer); ok {
+		_, idx, _ := v.PK()
+		return slices.Delete(slices.Clone(values), idx, idx+1)
+	}
+	return values
+}
+
+// updateColumns returns the columns to update, without the keys, and their values.
+func updateColumns[T sequel.ColumnValuer](model T, keys ...string) ([]string, []any) {
+	columns, values := insertColumns(model), insertValues(model)
+	cols, args := make([]string, 0, len(columns)), make([]any, 0, len(columns)+len(keys))
+	for i := range columns {
+		if !slices.Contains(keys, columns[i]) {
+			cols = append(cols, columns[i])
+			args = append(args, values[i])
+		}
+	}
+	return cols, args
+}
+
+// hasUpdate tells whether any of the columns is not omitted.
+func hasUpdate(columns, omitted []string) bool {
+	return slices.ContainsFunc(columns, func(column string) bool {
+		return !slices.Contains(omitted, column)
+	})
+}
+
 func dbName(model any) string {
 	if v, ok := model.(sequel.Databaser); ok {
 		return v.DatabaseName() + "."
@@ -1089,42 +989,104 @@ func dbName(model any) string {
 	return ""
 }
 
+// skipText returns the length of the string literal, quoted identifier or
+// comment that s starts with, or zero. There are no placeholders in these.
+func skipText(s string) int {
+	switch {
+	case strings.HasPrefix(s, "--"):
+		if i := strings.IndexByte(s, '\n'); i >= 0 {
+			return i
+		}
+		return len(s)
+	case strings.HasPrefix(s, "/*"):
+		if i := strings.Index(s[2:], "*/"); i >= 0 {
+			return i + 4
+		}
+		return len(s)
+	}
+	i, escape := 1, false
+	end := s[i-1]
+	if end != '\'' && end != '"' && end != '`' {
+		return 0
+	}
+	for ; i < len(s); i++ {
+		if s[i] == end {
+			return i + 1
+		}
+		if escape && end != '`' && s[i] == '\\' {
+			i++
+		}
+	}
+	return len(s)
+}
+
+// quote returns the string literal of s.
+func quote(s string) string {
+	return "'" + strings.ReplaceAll(s, "'", "''") + "'"
+}
+
+func formatFloat(f float64) string {
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		return quote(strconv.FormatFloat(f, 'g', -1, 64))
+	}
+	return strconv.FormatFloat(f, 'g', -1, 64)
+}
+
+// strf returns the literal of the value.
 func strf(v any) string {
 	switch vi := v.(type) {
 	case nil:
 		return "NULL"
 	case string:
-		return strconv.Quote(vi)
+		return quote(vi)
 	case []byte:
-		return strconv.Quote(unsafe.String(unsafe.SliceData(vi), len(vi)))
+		if vi == nil {
+			return "NULL"
+		}
+		return quote(string(vi))
 	case bool:
 		return strconv.FormatBool(vi)
 	case int64:
 		return strconv.FormatInt(vi, 10)
 	case float64:
-		return strconv.FormatFloat(vi, 'f', 10, 64)
+		return formatFloat(vi)
 	case time.Time:
-		return strconv.Quote(vi.Format(time.RFC3339))
-	case sql.RawBytes:
-		return unsafe.String(unsafe.SliceData(vi), len(vi))
+		return quote(vi.Format(time.RFC3339Nano))
 	case driver.Valuer:
-		val, _ := vi.Value()
+		rv := reflect.ValueOf(v)
+		if rv.Kind() == reflect.Pointer && rv.IsNil() && rv.Type().Elem().Implements(reflect.TypeFor[driver.Valuer]()) {
+			return "NULL"
+		}
+		val, err := vi.Value()
+		if err != nil {
+			return quote(err.Error())
+		}
+		if _, ok := val.(driver.Valuer); ok {
+			return quote(fmt.Sprint(val))
+		}
 		return strf(val)
-	default:
-		vt := reflect.ValueOf(v)
-		switch vt.Kind() {
-		case reflect.String:
-			return strconv.Quote(vt.String())
-		case reflect.Bool:
-			return strconv.FormatBool(vt.Bool())
-		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-			return strconv.FormatInt(vt.Int(), 10)
-		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			return strconv.FormatUint(vt.Uint(), 10)
-		case reflect.Float32, reflect.Float64:
-			return strconv.FormatFloat(vt.Float(), 'f', 10, 64)
-		default:
-			panic("unreachable")
+	}
+	vt := reflect.ValueOf(v)
+	switch vt.Kind() {
+	case reflect.String:
+		return quote(vt.String())
+	case reflect.Bool:
+		return strconv.FormatBool(vt.Bool())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return strconv.FormatInt(vt.Int(), 10)
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return strconv.FormatUint(vt.Uint(), 10)
+	case reflect.Float32, reflect.Float64:
+		return formatFloat(vt.Float())
+	case reflect.Pointer:
+		if vt.IsNil() {
+			return "NULL"
+		}
+		return strf(vt.Elem().Interface())
+	case reflect.Slice:
+		if vt.Type().Elem().Kind() == reflect.Uint8 {
+			return strf(vt.Bytes())
 		}
 	}
+	return quote(fmt.Sprint(v))
 }
diff --git a/examples/db/sqlite/operator.go b/examples/db/sqlite/operator.go
index 0026ac0..f585a19 100755
--- a/examples/db/sqlite/operator.go
+++ b/examples/db/sqlite/operator.go
@@ -62,6 +62,10 @@ func NotEqual[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 
 func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
+		if len(values) == 0 {
+			w.WriteString("1 = 0")
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
@@ -83,6 +87,10 @@ func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 
 func NotIn[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
+		if len(values) == 0 {
+			w.WriteString("1 = 1")
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
diff --git a/examples/testcase/struct/embedded/imported/generated.go b/examples/testcase/struct/embedded/imported/generated.go
index 7f5b0c6..1a4612a 100755
--- a/examples/testcase/struct/embedded/imported/generated.go
+++ b/examples/testcase/struct/embedded/imported/generated.go
@@ -1,50 +1,3 @@
 // Code generated by sqlgen, version v1.0.0-beta.1; DO NOT EDIT.
 
 package embedded
-
-import (
-	"cloud.google.com/go/civil"
-	"github.com/si3nloong/sqlgen/sequel"
-	"github.com/si3nloong/sqlgen/sequel/encoding"
-)
-
-func (B) TableName() string {
-	return "b"
-}
-func (B) Columns() []string {
-	return []string{"date", "time"} // 2
-}
-func (v B) Values() []any {
-	return []any{
-		encoding.TextValue(v.DateTime.Date), // 0 - date
-		encoding.TextValue(v.DateTime.Time), // 1 - time
-	}
-}
-func (v *B) Addrs() []any {
-	return []any{
-		encoding.TextScanner[civil.Date](&v.DateTime.Date), // 0 - date
-		encoding.TextScanner[civil.Time](&v.DateTime.Time), // 1 - time
-	}
-}
-func (B) InsertPlaceholders(row int) string {
-	return "(?,?)" // 2
-}
-func (v B) InsertOneStmt() (string, []any) {
-	return "INSERT INTO `b` (`date`,`time`) VALUES (?,?);", v.Values()
-}
-func (v B) DateValue() any {
-	return encoding.TextValue(v.DateTime.Date)
-}
-func (v B) TimeValue() any {
-	return encoding.TextValue(v.DateTime.Time)
-}
-func (v B) ColumnDate() sequel.ColumnConvertClause[civil.Date] {
-	return sequel.Column("date", v.DateTime.Date, func(val civil.Date) any {
-		return encoding.TextValue(val)
-	})
-}
-func (v B) ColumnTime() sequel.ColumnConvertClause[civil.Time] {
-	return sequel.Column("time", v.DateTime.Time, func(val civil.Time) any {
-		return encoding.TextValue(val)
-	})
-}
-- 
2.43.0


From b00f170781c035abe6c6fa42b7ccdbf6f74691b5 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 36/58] fix: the auto increment key is set through its own path
 and type

---
 cmd/sqlgen/codegen/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 915252f..ca59171 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -157,9 +157,9 @@ func (g *Generator) generateModels(
 			if ok {
 				fprintfln(w, "func (%s) IsAutoIncr() {}", t.GoName)
 				fprintfln(w, `func (v *%s) ScanAutoIncr(val int64) error {
-	v.%s = %s(val)
+	v%s = %s(val)
 	return nil
-}`, t.GoName, pk.GoName, pk.Type)
+}`, t.GoName, pk.GoPath, Expr(pk.Type.String()).Format(importPkgs))
 			} else if len(t.Keys) == 1 {
 				pk = t.Keys[0]
 			}
-- 
2.43.0


From e73bdab41f69043614a5fbe583e92b51434e3e0c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 37/58] fix: accessors of equally named embedded fields do not
 collide

---
 cmd/sqlgen/internal/compiler/parser.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index b8ef451..f1ce28a 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -306,6 +306,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 
 		// To store struct fields, to prevent field name collision
 		nameMap := make(map[string]struct{})
+		goNameMap := make(map[string]struct{})
 		pos = 0
 
 		if s.doc != nil {
@@ -326,6 +327,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 			}
 		}
 
+		for _, f := range structFields {
+			if f.parent == nil {
+				goNameMap[f.name] = struct{}{}
+			}
+		}
+
 		for _, f := range structFields {
 			if ptrCount(f.t) > 1 {
 				return nil, fmt.Errorf(`sqlgen: pointer of pointer is not supported`)
@@ -374,9 +381,19 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				return nil, fmt.Errorf("sqlgen: struct %q has duplicate column name %q in directory %q", s.name, name, dir)
 			}
 
+			// The accessors are named after the field. When an embedded struct has
+			// a field of the same name, its accessors have the name of the struct too
+			goName := f.name
+			for p := f.parent; p != nil; p = p.parent {
+				if _, ok := goNameMap[goName]; !ok {
+					break
+				}
+				goName = strings.ToUpper(p.name[:1]) + p.name[1:] + goName
+			}
+
 			tag := parseTag(tagPaths)
 			column := &Column{
-				GoName:   f.name,
+				GoName:   goName,
 				GoPath:   f.FullGoPath(),
 				Name:     name,
 				Pos:      pos,
@@ -402,8 +419,10 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 			table.Columns = append(table.Columns, column)
 			pos++
 			nameMap[name] = struct{}{}
+			goNameMap[goName] = struct{}{}
 		}
 		clear(nameMap)
+		clear(goNameMap)
 
 		if len(table.Columns) > 0 {
 			goPkg.Tables = append(goPkg.Tables, table)
-- 
2.43.0


From 1dff7974b7a224bc856cec4648992d39b002bbb3 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 21:56:48 +0000
Subject: [PATCH 38/58] fix: pointers to defined types are stored like their
 underlying type

---
 cmd/sqlgen/codegen/tool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/sqlgen/codegen/tool.go b/cmd/sqlgen/codegen/tool.go
index 3ac4fdc..64d004c 100644
--- a/cmd/sqlgen/codegen/tool.go
+++ b/cmd/sqlgen/codegen/tool.go
@@ -30,6 +30,7 @@ loop:
 				break loop
 			}
 			prev = v.Underlying()
+			continue
 		case *types.Pointer:
 			typeStr += "*"
 			prev = v.Elem()
-- 
2.43.0


From 26c6bd9b82e4e19912a7283f3f0f723311630abd Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 22:06:35 +0000
Subject: [PATCH 39/58] fix: a pointer to an alias of a pointer is a pointer of
 pointer

---
 cmd/sqlgen/internal/compiler/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index f1ce28a..9eb6028 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -485,7 +485,7 @@ func ptrCount(t types.Type) int {
 	var total int
 loop:
 	for t != nil {
-		if v, ok := t.(*types.Pointer); ok {
+		if v, ok := types.Unalias(t).(*types.Pointer); ok {
 			total++
 			t = v.Elem()
 		} else {
-- 
2.43.0


From dbbb424e5a0f5c0ffc62e0563150915b1b04bc44 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 22:13:34 +0000
Subject: [PATCH 40/58] fix: the key promoted from an embedded struct does not
 hide the composite key

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 51 +++++++++++++++++++-------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 2be0638..ff08c3c 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -242,7 +242,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 	)
 	defer strpool.ReleaseString(stmt)
 
-	switch v := any(model).(type) {
+	switch v := keyOf(model).(type) {
 	case sequel.AutoIncrKeyer:
 		pkName, _, _ := v.PK()
 		opt.omitFields = append(opt.omitFields, pkName)
@@ -263,7 +263,11 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 	if len(opt.duplicateKeys) > 0 {
 		stmt.WriteString(" ON CONFLICT(" + strings.Join(opt.duplicateKeys, ",") + ")")
 	} else {
-		switch vi := any(model).(type) {
+		key := keyOf(model)
+		if vi, ok := any(model).(duplicateKeyer); ok {
+			key = vi
+		}
+		switch vi := key.(type) {
 		case duplicateKeyer:
 			keys := vi.DuplicateKeys()
 			opt.omitFields = append(opt.omitFields, keys...)
@@ -337,7 +341,7 @@ func Upsert[T interface {
 	}
 
 	var stmt = strpool.AcquireString()
-	switch v := any(model).(type) {
+	switch v := keyOf(model).(type) {
 	case sequel.AutoIncrKeyer:
 		pkName, _, _ := v.PK()
 		opt.omitFields = append(opt.omitFields, pkName)
@@ -382,7 +386,11 @@ func Upsert[T interface {
 	if len(opt.duplicateKeys) > 0 {
 		stmt.WriteString(" ON CONFLICT(" + strings.Join(opt.duplicateKeys, ",") + ")")
 	} else {
-		switch vi := any(model).(type) {
+		key := keyOf(model)
+		if vi, ok := any(model).(duplicateKeyer); ok {
+			key = vi
+		}
+		switch vi := key.(type) {
 		case duplicateKeyer:
 			keys := vi.DuplicateKeys()
 			opt.omitFields = append(opt.omitFields, keys...)
@@ -476,7 +484,7 @@ func newValue(column string) string {
 func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Context, db *sql.DB, model Ptr, override bool, omittedFields ...string) (sql.Result, error) {
 	stmt := strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
-	switch v := any(model).(type) {
+	switch v := keyOf(model).(type) {
 	case sequel.PrimaryKeyer:
 		pkName, idx, _ := v.PK()
 		columns := insertColumns(model)
@@ -580,7 +588,7 @@ func Upsert[T interface {
 
 	var stmt = strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
-	switch v := any(model).(type) {
+	switch v := keyOf(model).(type) {
 	case sequel.AutoIncrKeyer:
 		pkName, _, _ := v.PK()
 		omittedFields = append(omittedFields, pkName)
@@ -665,10 +673,11 @@ func Upsert[T interface {
 
 // FindByPK is to find single record using primary key.
 func FindByPK[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Context, db *sql.DB, model Ptr) error {
-	switch v := any(model).(type) {
-	case sequel.KeyFinder:
+	if v, ok := any(model).(sequel.KeyFinder); ok {
 		query, args := v.FindOneByPKStmt()
 		return db.QueryRowContext(ctx, query, args...).Scan(model.Addrs()...)
+	}
+	switch v := keyOf(model).(type) {
 	case sequel.PrimaryKeyer:
 		pkName, _, pk := v.PK()
 		return db.QueryRowContext(ctx, "SELECT "+strings.Join(TableColumns(model), ",")+" FROM "+DbTable(model)+" WHERE "+pkName+" = {{ quoteVar 1 }} LIMIT 1;", pk).Scan(model.Addrs()...)
@@ -695,10 +704,11 @@ func FindByPK[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Con
 
 // UpdateByPK is to update single record using primary key.
 func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (sql.Result, error) {
-	switch v := any(model).(type) {
-	case sequel.KeyUpdater:
+	if v, ok := any(model).(sequel.KeyUpdater); ok {
 		query, args := v.UpdateOneByPKStmt()
 		return db.ExecContext(ctx, query, args...)
+	}
+	switch v := keyOf(model).(type) {
 	case sequel.PrimaryKeyer:
 		pkName, _, pk := v.PK()
 		columns, values := updateColumns(model, pkName)
@@ -750,10 +760,11 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 
 // DeleteByPK is to update single record using primary key.
 func DeleteByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (sql.Result, error) {
-	switch v := any(model).(type) {
-	case sequel.KeyDeleter:
+	if v, ok := any(model).(sequel.KeyDeleter); ok {
 		query, args := v.DeleteOneByPKStmt()
 		return db.ExecContext(ctx, query, args...)
+	}
+	switch v := keyOf(model).(type) {
 	case sequel.PrimaryKeyer:
 		pkName, _, pk := v.PK()
 		query := "DELETE FROM "+DbTable(model)+" WHERE "+pkName+" = {{ quoteVar 1 }};"
@@ -800,7 +811,7 @@ const (
 {{- end }}
 
 func LockByPK[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Context, tx *sql.Tx, model Ptr, locker sequel.RowLevelLocker) error {
-	switch v := any(model).(type) {
+	switch v := keyOf(model).(type) {
 	case sequel.PrimaryKeyer:
 		pkName, _, pk := v.PK()
 		return tx.QueryRowContext(ctx, "SELECT "+strings.Join(TableColumns(model), ",")+" FROM "+DbTable(model)+" WHERE "+pkName+" = {{ quoteVar 1 }} LIMIT 1 "+ locker.LockMode() +";", pk).Scan(model.Addrs()...)
@@ -903,7 +914,7 @@ func (r *Pager[T, Ptr]) fetch(ctx context.Context, db *sql.DB, forward bool, cur
 	if cursor != nil {
 		v = *cursor
 	}
-	switch vi := any(v).(type) {
+	switch vi := keyOf(v).(type) {
 	case sequel.CompositeKeyer:
 		keys, _, values = vi.CompositeKey()
 	case sequel.PrimaryKeyer:
@@ -1424,6 +1435,18 @@ func TableColumns[T sequel.Columner](model T) []string {
 	return model.Columns()
 }
 
+// keyOf returns the key of the model alone, a struct that is embedded may promote one of another kind.
+func keyOf(model any) any {
+	switch v := model.(type) {
+	case sequel.AutoIncrKeyer:
+		return struct{ sequel.AutoIncrKeyer }{v}
+	case sequel.CompositeKeyer:
+		return struct{ sequel.CompositeKeyer }{v}
+	default:
+		return model
+	}
+}
+
 // insertColumns returns the columns to insert, without the auto increment key
 // and the columns which are readonly.
 func insertColumns[T sequel.Columner](model T) []string {
-- 
2.43.0


From 032c37d71d54ec42318fbf67e4c56533c9f041ae Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 41/58] fix: camel and Pascal case split words like snake case
 does

---
 cmd/sqlgen/internal/strfmt/strfmt.go | 73 +++++++++++++++-------------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/cmd/sqlgen/internal/strfmt/strfmt.go b/cmd/sqlgen/internal/strfmt/strfmt.go
index 37d624f..e5a2421 100644
--- a/cmd/sqlgen/internal/strfmt/strfmt.go
+++ b/cmd/sqlgen/internal/strfmt/strfmt.go
@@ -1,6 +1,9 @@
 package strfmt
 
-import "strings"
+import (
+	"strings"
+	"unicode"
+)
 
 var uppercaseAcronym = map[string]string{
 	"ID": "id",
@@ -21,30 +24,31 @@ func toCamelInitCase(s string, initCase bool) string {
 	n.Grow(len(s))
 	capNext := initCase
 	prevIsCap := false
-	for i, v := range []byte(s) {
-		vIsCap := v >= 'A' && v <= 'Z'
-		vIsLow := v >= 'a' && v <= 'z'
+	rs := []rune(s)
+	for i, v := range rs {
+		vIsCap := unicode.IsUpper(v)
+		vIsLow := unicode.IsLower(v)
 		if capNext {
 			if vIsLow {
-				v += 'A'
-				v -= 'a'
+				v = unicode.ToUpper(v)
 			}
 		} else if i == 0 {
 			if vIsCap {
-				v += 'a'
-				v -= 'A'
+				v = unicode.ToLower(v)
 			}
 		} else if prevIsCap && vIsCap && !hasAcronym {
-			v += 'a'
-			v -= 'A'
+			// treat acronyms as words, eg for JSONData -> JSON is a whole word
+			if nextIsLow := i+1 < len(rs) && unicode.IsLower(rs[i+1]); !nextIsLow {
+				v = unicode.ToLower(v)
+			}
 		}
 		prevIsCap = vIsCap
 
-		if vIsCap || vIsLow {
-			n.WriteByte(v)
+		if unicode.IsLetter(v) {
+			n.WriteRune(v)
 			capNext = false
-		} else if vIsNum := v >= '0' && v <= '9'; vIsNum {
-			n.WriteByte(v)
+		} else if unicode.IsDigit(v) {
+			n.WriteRune(v)
 			capNext = true
 		} else {
 			capNext = v == '_' || v == ' ' || v == '-' || v == '.'
@@ -53,40 +57,39 @@ func toCamelInitCase(s string, initCase bool) string {
 	return n.String()
 }
 
-func toScreamingDelimited(s string, delimiter uint8, ignore string, screaming bool) string {
+func toScreamingDelimited(s string, delimiter rune, ignore string, screaming bool) string {
 	s = strings.TrimSpace(s)
 	n := strings.Builder{}
 	n.Grow(len(s) + 2) // nominal 2 bytes of extra space for inserted delimiters
-	for i, v := range []byte(s) {
-		vIsCap := v >= 'A' && v <= 'Z'
-		vIsLow := v >= 'a' && v <= 'z'
+	rs := []rune(s)
+	for i, v := range rs {
+		vIsCap := unicode.IsUpper(v)
+		vIsLow := unicode.IsLower(v)
 		if vIsLow && screaming {
-			v += 'A'
-			v -= 'a'
+			v = unicode.ToUpper(v)
 		} else if vIsCap && !screaming {
-			v += 'a'
-			v -= 'A'
+			v = unicode.ToLower(v)
 		}
 
 		// treat acronyms as words, eg for JSONData -> JSON is a whole word
-		if i+1 < len(s) {
-			next := s[i+1]
-			vIsNum := v >= '0' && v <= '9'
-			nextIsCap := next >= 'A' && next <= 'Z'
-			nextIsLow := next >= 'a' && next <= 'z'
-			nextIsNum := next >= '0' && next <= '9'
+		if i+1 < len(rs) {
+			next := rs[i+1]
+			vIsNum := unicode.IsDigit(v)
+			nextIsCap := unicode.IsUpper(next)
+			nextIsLow := unicode.IsLower(next)
+			nextIsNum := unicode.IsDigit(next)
 			// add underscore if next letter case type is changed
 			if (vIsCap && (nextIsLow || nextIsNum)) || (vIsLow && (nextIsCap || nextIsNum)) || (vIsNum && (nextIsCap || nextIsLow)) {
-				prevIgnore := ignore != "" && i > 0 && strings.ContainsAny(string(s[i-1]), ignore)
+				prevIgnore := ignore != "" && i > 0 && strings.ContainsAny(string(rs[i-1]), ignore)
 				if !prevIgnore {
 					if vIsCap && nextIsLow {
-						if prevIsCap := i > 0 && s[i-1] >= 'A' && s[i-1] <= 'Z'; prevIsCap {
-							n.WriteByte(delimiter)
+						if prevIsCap := i > 0 && unicode.IsUpper(rs[i-1]); prevIsCap {
+							n.WriteRune(delimiter)
 						}
 					}
-					n.WriteByte(v)
+					n.WriteRune(v)
 					if vIsLow || vIsNum || nextIsNum {
-						n.WriteByte(delimiter)
+						n.WriteRune(delimiter)
 					}
 					continue
 				}
@@ -95,9 +98,9 @@ func toScreamingDelimited(s string, delimiter uint8, ignore string, screaming bo
 
 		if (v == ' ' || v == '_' || v == '-' || v == '.') && !strings.ContainsAny(string(v), ignore) {
 			// replace space/underscore/hyphen/dot with delimiter
-			n.WriteByte(delimiter)
+			n.WriteRune(delimiter)
 		} else {
-			n.WriteByte(v)
+			n.WriteRune(v)
 		}
 	}
 
-- 
2.43.0


From 5c3c0a4f4c22c9e917ebe8be283d450c0b690751 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 42/58] fix: generated string literals hold any text

---
 cmd/sqlgen/codegen/generate.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index ca59171..1adcba2 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -13,7 +13,6 @@ import (
 	"strings"
 	"text/template"
 	"time"
-	"unsafe"
 
 	"github.com/samber/lo"
 	"github.com/si3nloong/sqlgen"
@@ -93,13 +92,10 @@ func (g *Generator) LogError(err error) {
 }
 
 func (g *Generator) Quote(str string) string {
-	buf := make([]byte, 0, len(str))
-	buf = append(buf, byte(g.quoteRune))
-	for i := range str {
-		buf = append(buf, byte(str[i]))
+	if g.quoteRune == '`' && strconv.CanBackquote(str) {
+		return "`" + str + "`"
 	}
-	buf = append(buf, byte(g.quoteRune))
-	return unsafe.String(unsafe.SliceData(buf), len(buf))
+	return strconv.Quote(str)
 }
 
 func (g *Generator) MustQuoteIdentifier(str string) string {
-- 
2.43.0


From 0146205a59946ab5a8ea27e4125a32f489e87777 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 43/58] fix: configuration levels are laid over each other
 setting by setting

---
 cmd/sqlgen/codegen/config.go | 64 ++++++++++++++++++++++++++----------
 cmd/sqlgen/codegen/init.go   |  3 ++
 2 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/cmd/sqlgen/codegen/config.go b/cmd/sqlgen/codegen/config.go
index 4ac3c22..196483e 100644
--- a/cmd/sqlgen/codegen/config.go
+++ b/cmd/sqlgen/codegen/config.go
@@ -1,6 +1,8 @@
 package codegen
 
 import (
+	"errors"
+	"io"
 	"maps"
 	"os"
 	"path/filepath"
@@ -115,9 +117,9 @@ func (c *Config) Init() {
 	c.Database.Package = "db"
 	c.Database.Dir = "db"
 	c.Database.Filename = "db.go"
+	// The package and directory of the operators follow the effective ones of
+	// the database, see `initIfEmpty`.
 	c.Database.Operator = new(DatabaseOperatorConfig)
-	c.Database.Operator.Package = c.Database.Package
-	c.Database.Operator.Dir = c.Database.Dir
 	c.Database.Operator.Filename = "operator.go"
 	c.DataTypes = make(map[string]*DataType)
 }
@@ -135,6 +137,10 @@ func (c *Config) initIfEmpty() {
 	if c.Tag == "" {
 		c.Tag = DefaultStructTag
 	}
+	if c.Strict == nil {
+		strict := true
+		c.Strict = &strict
+	}
 	if c.Getter.Prefix == "" {
 		c.Getter.Prefix = "Column"
 	}
@@ -183,7 +189,18 @@ func (c *Config) initIfEmpty() {
 }
 
 func (c *Config) Merge(mapCfg *Config) *Config {
-	c.QuoteIdentifier = mapCfg.QuoteIdentifier
+	if mapCfg.QuoteIdentifier {
+		c.QuoteIdentifier = true
+	}
+	if mapCfg.ReadOnly {
+		c.ReadOnly = true
+	}
+	if mapCfg.OmitGetters {
+		c.OmitGetters = true
+	}
+	if mapCfg.SourceMap {
+		c.SourceMap = true
+	}
 	if mapCfg.Source != nil {
 		c.Source = append([]string{}, mapCfg.Source...)
 	}
@@ -210,18 +227,20 @@ func (c *Config) Merge(mapCfg *Config) *Config {
 		c.Exec.Filename = mapCfg.Exec.Filename
 	}
 	if mapCfg.Database != nil {
-		c.Database = &DatabaseConfig{
-			Dir:      mapCfg.Database.Dir,
-			Package:  mapCfg.Database.Package,
-			Filename: mapCfg.Database.Filename,
+		if c.Database == nil {
+			c.Database = new(DatabaseConfig)
 		}
+		mergeString(&c.Database.Dir, mapCfg.Database.Dir)
+		mergeString(&c.Database.Package, mapCfg.Database.Package)
+		mergeString(&c.Database.Filename, mapCfg.Database.Filename)
 
 		if mapCfg.Database.Operator != nil {
-			c.Database.Operator = &DatabaseOperatorConfig{
-				Dir:      mapCfg.Database.Operator.Dir,
-				Package:  mapCfg.Database.Operator.Package,
-				Filename: mapCfg.Database.Operator.Filename,
+			if c.Database.Operator == nil {
+				c.Database.Operator = new(DatabaseOperatorConfig)
 			}
+			mergeString(&c.Database.Operator.Dir, mapCfg.Database.Operator.Dir)
+			mergeString(&c.Database.Operator.Package, mapCfg.Database.Operator.Package)
+			mergeString(&c.Database.Operator.Filename, mapCfg.Database.Operator.Filename)
 		}
 	}
 	if mapCfg.SkipHeader {
@@ -231,20 +250,30 @@ func (c *Config) Merge(mapCfg *Config) *Config {
 		c.SkipModTidy = true
 	}
 	if mapCfg.Migration != nil {
-		c.Migration = &MigrationConfig{
-			DSN:      mapCfg.Migration.DSN,
-			Package:  mapCfg.Migration.Package,
-			Dir:      mapCfg.Migration.Dir,
-			Filename: mapCfg.Migration.Filename,
+		if c.Migration == nil {
+			c.Migration = new(MigrationConfig)
 		}
+		mergeString(&c.Migration.DSN, mapCfg.Migration.DSN)
+		mergeString(&c.Migration.Package, mapCfg.Migration.Package)
+		mergeString(&c.Migration.Dir, mapCfg.Migration.Dir)
+		mergeString(&c.Migration.Filename, mapCfg.Migration.Filename)
 	}
 	if mapCfg.DataTypes != nil {
+		if c.DataTypes == nil {
+			c.DataTypes = make(map[string]*DataType)
+		}
 		maps.Copy(c.DataTypes, mapCfg.DataTypes)
 	}
 	c.initIfEmpty()
 	return c
 }
 
+func mergeString(dst *string, src string) {
+	if src != "" {
+		*dst = src
+	}
+}
+
 func (c Config) RenameFunc() func(string) string {
 	switch c.NamingConvention {
 	case SnakeCase:
@@ -287,7 +316,8 @@ func decodeToFile(src string, cfg *Config) error {
 	}
 	defer f.Close()
 	dec := yaml.NewDecoder(f)
-	if err := dec.Decode(cfg); err != nil {
+	// A file without any setting decodes to io.EOF.
+	if err := dec.Decode(cfg); err != nil && !errors.Is(err, io.EOF) {
 		return err
 	}
 	return nil
diff --git a/cmd/sqlgen/codegen/init.go b/cmd/sqlgen/codegen/init.go
index 3c2abba..4ddb7aa 100644
--- a/cmd/sqlgen/codegen/init.go
+++ b/cmd/sqlgen/codegen/init.go
@@ -16,6 +16,9 @@ import (
 )
 
 func Init(cfg *Config) error {
+	// Settings left out of the configuration are written with their defaults.
+	cfg = new(Config).Merge(cfg)
+
 	f, err := os.OpenFile(DefaultConfigFile, os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.ModePerm)
 	if err != nil {
 		return err
-- 
2.43.0


From 7332d143d6b15ea33a8b9567eeb101bd90f8fada Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 22:42:02 +0000
Subject: [PATCH 44/58] fix: restore the generated files of the examples

They were committed by mistake with 7df0ac7.
---
 examples/db/mysql/db.go                       | 740 +++++++++---------
 examples/db/mysql/operator.go                 |   8 -
 examples/db/postgres/db.go                    | 720 +++++++++--------
 examples/db/postgres/operator.go              |   8 -
 examples/db/sqlite/db.go                      | 740 +++++++++---------
 examples/db/sqlite/operator.go                |   8 -
 .../struct/embedded/imported/generated.go     |  47 ++
 7 files changed, 1197 insertions(+), 1074 deletions(-)

diff --git a/examples/db/mysql/db.go b/examples/db/mysql/db.go
index bbf78df..1f2bc04 100755
--- a/examples/db/mysql/db.go
+++ b/examples/db/mysql/db.go
@@ -8,9 +8,8 @@ import (
 	"database/sql/driver"
 	"fmt"
 	"iter"
-	"math"
 	"reflect"
-	"slices"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -47,7 +46,7 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 		query, args := v.InsertOneStmt()
 		return db.ExecContext(ctx, query, args...)
 	default:
-		columns, args := insertColumns(model), insertValues(model)
+		columns, args := model.Columns(), model.Values()
 		query := "INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat("?,", len(columns)-1) + "?);"
 		return db.ExecContext(ctx, query, args...)
 	}
@@ -61,11 +60,13 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 	}
 
 	model := data[0]
-	columns := insertColumns(model)
+	columns := model.Columns()
 	stmt := strpool.AcquireString()
 
-	switch any(model).(type) {
+	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
+		_, idx, _ := v.PK()
+		columns = append(columns[:idx], columns[idx+1:]...)
 		noOfCols := len(columns)
 		cols := strings.Join(columns, ",")
 		args := make([]any, 0, noOfCols*noOfData)
@@ -77,7 +78,9 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 			} else {
 				stmt.WriteString(placeholder)
 			}
-			args = append(args, insertValues(data[i])...)
+			values := data[i].Values()
+			values = append(values[:idx], values[idx+1:]...)
+			args = append(args, values...)
 		}
 		stmt.WriteByte(';')
 		result, err := db.ExecContext(ctx, stmt.String(), args...)
@@ -89,10 +92,10 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 		args := make([]any, 0, noOfCols*noOfData)
 		placeholder := "(" + strings.Repeat(",?", noOfCols)[1:] + ")"
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES " + placeholder)
-		args = append(args, insertValues(data[0])...)
+		args = append(args, data[0].Values()...)
 		for i := 1; i < noOfData; i++ {
 			stmt.WriteString("," + placeholder)
-			args = append(args, insertValues(data[i])...)
+			args = append(args, data[i].Values()...)
 		}
 		stmt.WriteByte(';')
 		result, err := db.ExecContext(ctx, stmt.String(), args...)
@@ -101,48 +104,38 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 	}
 }
 
-const (
-	insertIgnore = "INSERT IGNORE INTO "
-	onConflict   = " ON DUPLICATE KEY UPDATE "
-)
-
-// newValue is the value which is proposed for insertion.
-func newValue(column string) string {
-	return "VALUES(" + column + ")"
-}
-
 func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Context, db *sql.DB, model Ptr, override bool, omittedFields ...string) (sql.Result, error) {
 	stmt := strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
 	switch v := any(model).(type) {
 	case sequel.PrimaryKeyer:
 		pkName, idx, _ := v.PK()
-		columns := insertColumns(model)
-		if !override || !hasUpdate(columns, append(omittedFields, pkName)) {
-			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
+		columns := model.Columns()
+		if !override {
+			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
 			omitDict := map[string]struct{}{pkName: {}}
 			for i := range omittedFields {
 				omitDict[omittedFields[i]] = struct{}{}
 			}
 			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ")" + onConflict)
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
 			first := true
 			for i := range columns {
 				if _, ok := omitDict[columns[i]]; ok {
 					continue
 				}
 				if first {
-					stmt.WriteString(columns[i] + " =" + newValue(columns[i]))
+					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
 				} else {
-					stmt.WriteString("," + columns[i] + " =" + newValue(columns[i]))
+					stmt.WriteString("," + columns[i] + " =VALUES(" + columns[i] + ")")
 				}
 				first = false
 			}
 			clear(omitDict)
 		}
 		if _, ok := any(model).(sequel.AutoIncrKeyer); ok {
-			result, err := db.ExecContext(ctx, stmt.String(), insertValues(model)...)
+			result, err := db.ExecContext(ctx, stmt.String(), model.Values()...)
 			if err != nil {
 				return nil, err
 			}
@@ -162,38 +155,36 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 			}
 			return result, nil
 		}
-		return db.ExecContext(ctx, stmt.String(), insertValues(model)...)
+		return db.ExecContext(ctx, stmt.String(), model.Values()...)
 	case sequel.CompositeKeyer:
-		names, _, _ := v.CompositeKey()
-		columns := insertColumns(model)
-		if !override || !hasUpdate(columns, append(omittedFields, names...)) {
-			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
+		names, idxs, _ := v.CompositeKey()
+		columns := model.Columns()
+		if !override {
+			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
-			// Exclude composite key, don't update it
 			dict := make(map[string]struct{})
-			for i := range names {
-				dict[names[i]] = struct{}{}
-			}
-			for i := range omittedFields {
+			for i := range append(names, omittedFields...) {
 				dict[omittedFields[i]] = struct{}{}
 			}
 			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ")" + onConflict)
-			first := true
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
+			// Exclude composite key, don't update it
+			for i := len(idxs) - 1; i >= 0; i-- {
+				columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
+			}
 			for i := range columns {
 				if _, ok := dict[columns[i]]; ok {
 					continue
 				}
-				if first {
-					stmt.WriteString(columns[i] + " =" + newValue(columns[i]))
+				if i < noOfCols-1 {
+					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + "),")
 				} else {
-					stmt.WriteString("," + columns[i] + " =" + newValue(columns[i]))
+					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
 				}
-				first = false
 			}
 			clear(dict)
 		}
-		return db.ExecContext(ctx, stmt.String(), insertValues(model)...)
+		return db.ExecContext(ctx, stmt.String(), model.Values()...)
 	default:
 		panic("unreachable")
 	}
@@ -211,7 +202,7 @@ func Upsert[T interface {
 
 	var (
 		model    = data[0]
-		columns  = insertColumns(model)
+		columns  = model.Columns()
 		noOfCols = len(columns)
 		args     = make([]any, 0, noOfCols*noOfData)
 	)
@@ -220,14 +211,14 @@ func Upsert[T interface {
 	defer strpool.ReleaseString(stmt)
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		pkName, _, _ := v.PK()
+		pkName, idx, _ := v.PK()
 		omittedFields = append(omittedFields, pkName)
-		override = override && hasUpdate(columns, omittedFields)
 		// Don't include auto increment primary key on INSERT
+		columns = append(columns[:idx], columns[idx+1:]...)
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		placeholder := ",(" + strings.Repeat(",?", noOfCols)[1:] + ")"
 		for i := 0; i < noOfData; i++ {
@@ -236,16 +227,17 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(placeholder[1:])
 			}
-			args = append(args, insertValues(data[i])...)
+			values := data[i].Values()
+			values = append(values[:idx], values[idx+1:]...)
+			args = append(args, values...)
 		}
 	case sequel.PrimaryKeyer:
 		pkName, _, _ := v.PK()
 		omittedFields = append(omittedFields, pkName)
-		override = override && hasUpdate(columns, omittedFields)
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		for i := 0; i < noOfData; i++ {
 			if i > 0 {
@@ -253,17 +245,13 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, insertValues(data[i])...)
+			args = append(args, data[i].Values()...)
 		}
 	case sequel.CompositeKeyer:
-		// Exclude composite key, don't update it
-		keyNames, _, _ := v.CompositeKey()
-		omittedFields = append(omittedFields, keyNames...)
-		override = override && hasUpdate(columns, omittedFields)
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		for i := 0; i < noOfData; i++ {
 			if i > 0 {
@@ -271,11 +259,16 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, insertValues(data[i])...)
+			args = append(args, data[i].Values()...)
+		}
+		_, idxs, _ := v.CompositeKey()
+		// Exclude primary key, don't update it
+		for i := len(idxs) - 1; i >= 0; i-- {
+			columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
 		}
 	}
 	if override {
-		stmt.WriteString(onConflict)
+		stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
 		// Don't update primary key when we do upsert
 		omitDict := map[string]struct{}{}
 		for i := range omittedFields {
@@ -288,9 +281,9 @@ func Upsert[T interface {
 				continue
 			}
 			if first {
-				stmt.WriteString(columns[i] + "=" + newValue(columns[i]))
+				stmt.WriteString(columns[i] + "=VALUES(" + columns[i] + ")")
 			} else {
-				stmt.WriteString("," + columns[i] + "=" + newValue(columns[i]))
+				stmt.WriteString("," + columns[i] + "=VALUES(" + columns[i] + ")")
 			}
 			first = false
 		}
@@ -324,20 +317,25 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		query, args := v.UpdateOneByPKStmt()
 		return db.ExecContext(ctx, query, args...)
 	case sequel.PrimaryKeyer:
-		pkName, _, pk := v.PK()
-		columns, values := updateColumns(model, pkName)
-		if len(columns) == 0 {
-			columns, values = []string{pkName}, []any{pk}
-		}
+		pkName, pkIdx, pk := v.PK()
+		columns := model.Columns()
+		columns = append(columns[:pkIdx], columns[pkIdx+1:]...)
+		values := model.Values()
+		values = append(values[:pkIdx], append(values[pkIdx+1:], pk)...)
 		return db.ExecContext(ctx, "UPDATE "+DbTable(model)+" SET "+strings.Join(columns, " = ?,")+" = ? WHERE "+pkName+" = ?;", append(values, pk)...)
 	case sequel.CompositeKeyer:
-		keyNames, _, keys := v.CompositeKey()
-		columns, values := updateColumns(model, keyNames...)
-		if len(columns) == 0 {
-			columns, values = keyNames, slices.Clone(keys)
+		columns := model.Columns()
+		keyNames, keyIdxs, keys := v.CompositeKey()
+		values := model.Values()
+		sort.Ints(keyIdxs)
+		for i := len(keyIdxs) - 1; i >= 0; i-- {
+			columns = append(columns[:keyIdxs[i]], columns[keyIdxs[i]+1:]...)
+			values = append(values[:keyIdxs[i]], values[keyIdxs[i]+1:]...)
 		}
+		noOfColumn := len(columns)
+		args := make([]any, 0, noOfColumn+len(keys))
 		query := "UPDATE " + DbTable(model) + " SET " + strings.Join(columns, " = ?,") + " = ? WHERE (" + strings.Join(keyNames, ",") + ") = (?" + strings.Repeat(",?", len(keyNames)-1) + ");"
-		return db.ExecContext(ctx, query, append(values, keys...)...)
+		return db.ExecContext(ctx, query, append(args, keys...)...)
 	default:
 		panic("unreachable")
 	}
@@ -408,159 +406,317 @@ type Pager[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]] struct {
 	stmt *PaginateStmt
 }
 
-// Prev iterates backward, from the cursor or else from the last record.
 func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
-	return r.pages(ctx, db, false, cursor)
-}
-
-// Next iterates forward, from the cursor or else from the first record.
-func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
-	return r.pages(ctx, db, true, cursor)
-}
-
-func (r *Pager[T, Ptr]) pages(ctx context.Context, db *sql.DB, forward bool, cursor []T) iter.Seq2[[]T, error] {
 	return func(yield func([]T, error) bool) {
 		var (
-			from     Ptr
-			maxLimit = int(r.stmt.Limit)
+			v         T
+			hasCursor bool
+			maxLimit  = r.stmt.Limit
 		)
 		if len(cursor) > 0 {
-			v := cursor[0]
-			from = &v
-			if err := FindByPK[T](ctx, db, from); err != nil {
-				yield(nil, err)
-				return
-			}
+			v = cursor[0]
+			hasCursor = true
 		}
+		blr := AcquireStmt()
+		defer ReleaseStmt(blr)
+
 		for {
+			if hasCursor {
+				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
+					yield(nil, err)
+					return
+				}
+			}
+
+			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
+			if r.stmt.Where != nil {
+				r.stmt.Where(blr)
+			}
+
+			if n := len(r.stmt.OrderBy); n > 0 {
+				colDict := make(map[string]int)
+				columns := v.Columns()
+				values := v.Values()
+				for i := range columns {
+					colDict[columns[i]] = i
+				}
+
+				buf := strpool.AcquireString()
+				for i := 0; i < n; i++ {
+					orderedColumn := r.stmt.OrderBy[i]
+					columnName := orderedColumn.ColumnName()
+					value := values[colDict[columnName]]
+					if orderedColumn.Asc() {
+						// If ascending
+						blr.WriteString(columnName + " <= " + blr.Var(value) + " AND ")
+						buf.WriteString(columnName + " < " + blr.Var(value) + " OR ")
+					} else {
+						// If descending
+						blr.WriteString(columnName + " >= " + blr.Var(value) + " AND ")
+						buf.WriteString(columnName + " > " + blr.Var(value) + " OR ")
+					}
+				}
+				clear(colDict)
+				blr.WriteString("(" + buf.String())
+				strpool.ReleaseString(buf)
+			}
+
+			if hasCursor {
+				// Check the primary key and compare value
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, vals := vi.CompositeKey()
+					blr.WriteString("((" + strings.Join(pkNames, ",") + ") <= " + blr.Vars(vals) + ")")
+				case sequel.PrimaryKeyer:
+					pkName, _, val := vi.PK()
+					blr.WriteString("(" + pkName + " <= " + blr.Var(val) + ")")
+				default:
+					panic("unreachable")
+				}
+			}
+
+			blr.WriteString(" ORDER BY ")
+			if len(r.stmt.OrderBy) > 0 {
+				for i := range r.stmt.OrderBy {
+					if r.stmt.OrderBy[i].Asc() {
+						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
+					} else {
+						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
+					}
+				}
+				var (
+					suffix  = " DESC"
+					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
+				)
+				if lastCol.Asc() {
+					suffix = " ASC"
+				}
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, _ := vi.CompositeKey()
+					blr.WriteString("(" + strings.Join(pkNames, ",") + ")" + suffix)
+				case sequel.PrimaryKeyer:
+					pkName, _, _ := vi.PK()
+					blr.WriteString(pkName + suffix)
+				default:
+					panic("unreachable")
+				}
+			} else {
+				// If there is no order by clause,
+				// descending is the default order
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, _ := vi.CompositeKey()
+					blr.WriteString("(" + strings.Join(pkNames, ",") + ") DESC")
+				case sequel.PrimaryKeyer:
+					pkName, _, _ := vi.PK()
+					blr.WriteString(pkName + " DESC")
+				default:
+					panic("unreachable")
+				}
+			}
 			// Add one to limit to find next cursor
-			data, err := r.fetch(ctx, db, forward, from, maxLimit+1)
+			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
+
+			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
+			blr.Reset()
 			if err != nil {
 				yield(nil, err)
 				return
 			}
-			if len(data) <= maxLimit {
-				yield(data, nil)
+
+			data := make([]T, 0, r.stmt.Limit+1)
+			for rows.Next() {
+				var v T
+				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
+					rows.Close()
+					yield(nil, err)
+					return
+				}
+				data = append(data, v)
+			}
+			rows.Close()
+
+			noOfRecord := len(data)
+			if uint16(noOfRecord) <= maxLimit {
+				if !yield(data, nil) {
+					return
+				}
 				return
 			}
-			next := data[maxLimit] // Set next cursor
-			from = &next
-			if !yield(data[:maxLimit:maxLimit], nil) {
+
+			if !yield(data[:noOfRecord-1], nil) {
 				return
 			}
+
+			v = data[noOfRecord-1] // Set next cursor
+			data = nil             // Reset result
+			hasCursor = true
 		}
 	}
 }
 
-// fetch returns the records of a page, the first one is the cursor.
-func (r *Pager[T, Ptr]) fetch(ctx context.Context, db *sql.DB, forward bool, cursor Ptr, limit int) ([]T, error) {
-	var (
-		v       T
-		keys    []string
-		values  []any
-		orderBy = slices.Clone(r.stmt.OrderBy)
-		asc     = len(orderBy) == 0 || orderBy[len(orderBy)-1].Asc()
-	)
-	if cursor != nil {
-		v = *cursor
-	}
-	switch vi := any(v).(type) {
-	case sequel.CompositeKeyer:
-		keys, _, values = vi.CompositeKey()
-	case sequel.PrimaryKeyer:
-		name, _, value := vi.PK()
-		keys, values = []string{name}, []any{value}
-	default:
-		panic("unreachable")
-	}
-	// The key is the tie-breaker
-	for i := range keys {
-		orderBy = append(orderBy, sequel.OrderByColumn(keys[i], asc))
-	}
-
-	blr := AcquireStmt()
-	defer ReleaseStmt(blr)
-	blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v))
-	if r.stmt.Where != nil {
-		blr.WriteString(" WHERE (")
-		r.stmt.Where(blr)
-		blr.WriteByte(')')
-	}
-	if cursor != nil {
-		if r.stmt.Where != nil {
-			blr.WriteString(" AND ")
-		} else {
-			blr.WriteString(" WHERE ")
+func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return func(yield func([]T, error) bool) {
+		var (
+			v         T
+			hasCursor bool
+			maxLimit  = r.stmt.Limit
+		)
+		if len(cursor) > 0 {
+			v = cursor[0]
+			hasCursor = true
 		}
-		// Compare the columns with those of the cursor, in priority order
-		for i := range orderBy {
-			name, op := orderBy[i].ColumnName(), " < "
-			asc := orderBy[i].Asc() == forward
-			if asc {
-				op = " > "
-			}
-			if n := i - len(r.stmt.OrderBy); n >= 0 {
-				if n == len(keys)-1 {
-					// The cursor itself is included
-					blr.WriteString(name + op[:2] + "= " + blr.Var(values[n]))
-				} else {
-					blr.WriteString("(" + name + op + blr.Var(values[n]) + " OR (" + name + " = " + blr.Var(values[n]) + " AND ")
+		blr := AcquireStmt()
+		defer ReleaseStmt(blr)
+
+		for {
+			if hasCursor {
+				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
+					yield(nil, err)
+					return
 				}
-				continue
 			}
-			value := func() string {
-				str := "(SELECT " + name + " FROM " + DbTable(v) + " WHERE "
-				for j := range keys {
-					if j > 0 {
-						str += " AND "
+
+			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
+			if r.stmt.Where != nil {
+				r.stmt.Where(blr)
+			}
+
+			if len(r.stmt.OrderBy) > 0 {
+				colDict := make(map[string]int)
+				columns := v.Columns()
+				values := v.Values()
+				for i := range columns {
+					colDict[columns[i]] = i
+				}
+
+				for i, orderBy := range r.stmt.OrderBy {
+					colName := orderBy.ColumnName()
+					val := values[colDict[colName]]
+					if i > 0 {
+						blr.WriteString(" AND ")
+					}
+					if orderBy.Asc() {
+						// If ascending
+						blr.WriteString(colName + " >= " + blr.Var(val))
+					} else {
+						// If descending
+						blr.WriteString(colName + " <= " + blr.Var(val))
+					}
+				}
+				blr.WriteString(" AND (")
+				for i, orderBy := range r.stmt.OrderBy {
+					colName := orderBy.ColumnName()
+					val := values[colDict[colName]]
+					if i > 0 {
+						blr.WriteString(" OR ")
+					}
+					if orderBy.Asc() {
+						// If ascending
+						blr.WriteString(colName + " > " + blr.Var(val))
+					} else {
+						// If descending
+						blr.WriteString(colName + " < " + blr.Var(val))
 					}
-					str += keys[j] + " = " + blr.Var(values[j])
 				}
-				return str + ")"
+				clear(colDict)
+				blr.WriteString(" OR ")
 			}
-			blr.WriteString("(" + name + op + value())
-			nullsLast := !asc
-			if nullsLast {
-				blr.WriteString(" OR (" + name + " IS NULL AND " + value() + " IS NOT NULL)")
-			} else {
-				blr.WriteString(" OR (" + name + " IS NOT NULL AND " + value() + " IS NULL)")
+
+			if hasCursor {
+				// Check the primary key and compare value
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, vals := vi.CompositeKey()
+					blr.WriteString("((" + strings.Join(pkNames, ",") + ") >= " + blr.Vars(vals) + ")")
+				case sequel.PrimaryKeyer:
+					pkName, _, val := vi.PK()
+					blr.WriteString("(" + pkName + " >= " + blr.Var(val) + ")")
+				default:
+					panic("unreachable")
+				}
 			}
-			blr.WriteString(" OR ((" + name + " = " + value() + " OR (" + name + " IS NULL AND " + value() + " IS NULL)) AND ")
-		}
-		blr.WriteString(strings.Repeat("))", len(orderBy)-1))
-	}
-	for i := range orderBy {
-		if i > 0 {
-			blr.WriteByte(',')
-		} else {
+
 			blr.WriteString(" ORDER BY ")
-		}
-		if orderBy[i].Asc() == forward {
-			blr.WriteString(orderBy[i].ColumnName() + " ASC")
-		} else {
-			blr.WriteString(orderBy[i].ColumnName() + " DESC")
-		}
-	}
-	blr.WriteString(" LIMIT " + strconv.Itoa(limit) + ";")
+			if len(r.stmt.OrderBy) > 0 {
+				for i := range r.stmt.OrderBy {
+					if r.stmt.OrderBy[i].Asc() {
+						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
+					} else {
+						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
+					}
+				}
+				var (
+					suffix  = " ASC"
+					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
+				)
+				if !lastCol.Asc() {
+					suffix = " DESC"
+				}
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, _ := vi.CompositeKey()
+					blr.WriteString("(" + strings.Join(pkNames, ",") + ")" + suffix)
+				case sequel.PrimaryKeyer:
+					pkName, _, _ := vi.PK()
+					blr.WriteString(pkName + suffix)
+				default:
+					panic("unreachable")
+				}
+			} else {
+				// If there is no order by clause,
+				// ascending is the default order
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, _ := vi.CompositeKey()
+					blr.WriteString("(" + strings.Join(pkNames, ",") + ") ASC")
+				case sequel.PrimaryKeyer:
+					pkName, _, _ := vi.PK()
+					blr.WriteString(pkName)
+				default:
+					panic("unreachable")
+				}
+			}
+			// Add one to limit to find next cursor
+			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
 
-	rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
-	if err != nil {
-		return nil, err
-	}
-	defer rows.Close()
+			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
+			blr.Reset()
+			if err != nil {
+				yield(nil, err)
+				return
+			}
 
-	data := []T{}
-	for rows.Next() {
-		var v T
-		if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
-			return nil, err
+			data := make([]T, 0, r.stmt.Limit+1)
+			for rows.Next() {
+				var v T
+				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
+					rows.Close()
+					yield(nil, err)
+					return
+				}
+				data = append(data, v)
+			}
+			rows.Close()
+
+			noOfRecord := len(data)
+			if uint16(noOfRecord) <= maxLimit {
+				if !yield(data, nil) {
+					return
+				}
+				return
+			}
+
+			if !yield(data[:noOfRecord-1], nil) {
+				return
+			}
+
+			v = data[noOfRecord-1] // Set next cursor
+			data = nil             // Reset result
+			hasCursor = true
 		}
-		data = append(data, v)
 	}
-	if err := rows.Err(); err != nil {
-		return nil, err
-	}
-	return data, rows.Close()
 }
 
 type SelectStmt struct {
@@ -625,9 +781,6 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 	}
 	if stmt.Limit > 0 {
 		blr.WriteString(" LIMIT " + strconv.Itoa((int)(stmt.Limit)))
-	} else if stmt.Offset > 0 {
-		// An offset is only allowed after a limit
-		blr.WriteString(" LIMIT 9223372036854775807")
 	}
 	if stmt.Offset > 0 {
 		blr.WriteString(" OFFSET " + strconv.FormatUint(stmt.Offset, 10))
@@ -648,9 +801,6 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 		}
 		result = append(result, v)
 	}
-	if err := rows.Err(); err != nil {
-		return nil, err
-	}
 	if err := rows.Close(); err != nil {
 		return nil, err
 	}
@@ -687,7 +837,6 @@ func QueryOneStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.
 		case sequel.Tabler:
 			blr.WriteString(" FROM " + DbTable(vj))
 		default:
-			ReleaseStmt(blr)
 			return nil, fmt.Errorf("missing table name for model %T", v)
 		}
 	}
@@ -749,7 +898,7 @@ func ExecStmt[T any, Stmt interface {
 
 	switch vi := any(stmt).(type) {
 	case UpdateStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok && vi.Table == "" {
+		if vt, ok := any(v).(sequel.Tabler); ok {
 			blr.WriteString("UPDATE " + DbTable(vt))
 		} else {
 			blr.WriteString("UPDATE " + dbName(v) + vi.Table)
@@ -784,7 +933,7 @@ func ExecStmt[T any, Stmt interface {
 			blr.WriteString(" LIMIT " + strconv.Itoa((int)(vi.Limit)))
 		}
 	case DeleteStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok && vi.FromTable == "" {
+		if vt, ok := any(v).(sequel.Tabler); ok {
 			blr.WriteString("DELETE FROM " + DbTable(vt))
 		} else {
 			blr.WriteString("DELETE FROM " + dbName(v) + vi.FromTable)
@@ -853,7 +1002,7 @@ func (s *SqlStmt) Var(value any) string {
 func (s *SqlStmt) Vars(values []any) string {
 	noOfLen := len(values)
 	s.args = append(s.args, values...)
-	return "(" + strings.TrimPrefix(strings.Repeat(",?", noOfLen), ",") + ")"
+	return "(" + strings.Repeat(",?", noOfLen)[1:] + ")"
 }
 
 func (s *SqlStmt) Write(p []byte) (int, error) {
@@ -890,29 +1039,27 @@ func (s *SqlStmt) Format(f fmt.State, verb rune) {
 	}
 
 	var (
-		buf = make([]byte, 0, len(str)*2)
-		pos int
+		args = make([]any, len(s.args))
+		idx  int
+		i    = 1
 	)
-	for i := 0; i < len(str); {
-		if n := skipText(str[i:]); n > 0 {
-			buf = append(buf, str[i:i+n]...)
-			i += n
-			continue
-		}
-		n := 0
-		if strings.HasPrefix(str[i:], "?") {
-			pos++
-			n = len("?")
-		}
-		if n > 0 && pos > 0 && pos <= len(s.args) {
-			buf = append(buf, strf(s.args[pos-1])...)
-		} else {
-			n = max(n, 1)
-			buf = append(buf, str[i:i+n]...)
+
+	copy(args, s.args)
+
+	for {
+		idx = strings.Index(str, "?")
+		if idx < 0 {
+			f.Write(unsafe.Slice(unsafe.StringData(str), len(str)))
+			break
 		}
-		i += n
+
+		f.Write([]byte(str[:idx]))
+		v := strf(args[0])
+		f.Write(unsafe.Slice(unsafe.StringData(v), len(v)))
+		str = str[idx+1:]
+		args = args[1:]
+		i++
 	}
-	f.Write(buf)
 }
 
 func (s *SqlStmt) Reset() {
@@ -935,53 +1082,6 @@ func TableColumns[T sequel.Columner](model T) []string {
 	return model.Columns()
 }
 
-// insertColumns returns the columns to insert, without the auto increment key
-// and the columns which are readonly.
-func insertColumns[T sequel.Columner](model T) []string {
-	if v, ok := any(model).(sequel.InsertColumner); ok {
-		return v.InsertColumns()
-	}
-	columns := model.Columns()
-	if v, ok := any(model).(sequel.AutoIncrKeyer); ok {
-		_, idx, _ := v.PK()
-		return slices.Delete(slices.Clone(columns), idx, idx+1)
-	}
-	return columns
-}
-
-// insertValues returns the values of the columns from insertColumns.
-func insertValues[T sequel.Valuer](model T) []any {
-	values := model.Values()
-	if _, ok := any(model).(sequel.InsertColumner); ok {
-		return values
-	}
-	if v, ok := any(model).(sequel.AutoIncrKeyer); ok {
-		_, idx, _ := v.PK()
-		return slices.Delete(slices.Clone(values), idx, idx+1)
-	}
-	return values
-}
-
-// updateColumns returns the columns to update, without the keys, and their values.
-func updateColumns[T sequel.ColumnValuer](model T, keys ...string) ([]string, []any) {
-	columns, values := insertColumns(model), insertValues(model)
-	cols, args := make([]string, 0, len(columns)), make([]any, 0, len(columns)+len(keys))
-	for i := range columns {
-		if !slices.Contains(keys, columns[i]) {
-			cols = append(cols, columns[i])
-			args = append(args, values[i])
-		}
-	}
-	return cols, args
-}
-
-// hasUpdate tells whether any of the columns is not omitted.
-func hasUpdate(columns, omitted []string) bool {
-	return slices.ContainsFunc(columns, func(column string) bool {
-		return !slices.Contains(omitted, column)
-	})
-}
-
 func dbName(model any) string {
 	if v, ok := model.(sequel.Databaser); ok {
 		return v.DatabaseName() + "."
@@ -989,104 +1089,42 @@ func dbName(model any) string {
 	return ""
 }
 
-// skipText returns the length of the string literal, quoted identifier or
-// comment that s starts with, or zero. There are no placeholders in these.
-func skipText(s string) int {
-	switch {
-	case strings.HasPrefix(s, "--"):
-		if i := strings.IndexByte(s, '\n'); i >= 0 {
-			return i
-		}
-		return len(s)
-	case strings.HasPrefix(s, "/*"):
-		if i := strings.Index(s[2:], "*/"); i >= 0 {
-			return i + 4
-		}
-		return len(s)
-	}
-	i, escape := 1, true
-	end := s[i-1]
-	if end != '\'' && end != '"' && end != '`' {
-		return 0
-	}
-	for ; i < len(s); i++ {
-		if s[i] == end {
-			return i + 1
-		}
-		if escape && end != '`' && s[i] == '\\' {
-			i++
-		}
-	}
-	return len(s)
-}
-
-// quote returns the string literal of s.
-func quote(s string) string {
-	return "'" + strings.NewReplacer("'", "''", "\\", "\\\\").Replace(s) + "'"
-}
-
-func formatFloat(f float64) string {
-	if math.IsNaN(f) || math.IsInf(f, 0) {
-		return quote(strconv.FormatFloat(f, 'g', -1, 64))
-	}
-	return strconv.FormatFloat(f, 'g', -1, 64)
-}
-
-// strf returns the literal of the value.
 func strf(v any) string {
 	switch vi := v.(type) {
 	case nil:
 		return "NULL"
 	case string:
-		return quote(vi)
+		return strconv.Quote(vi)
 	case []byte:
-		if vi == nil {
-			return "NULL"
-		}
-		return quote(string(vi))
+		return strconv.Quote(unsafe.String(unsafe.SliceData(vi), len(vi)))
 	case bool:
 		return strconv.FormatBool(vi)
 	case int64:
 		return strconv.FormatInt(vi, 10)
 	case float64:
-		return formatFloat(vi)
+		return strconv.FormatFloat(vi, 'f', 10, 64)
 	case time.Time:
-		return quote(vi.Format(time.RFC3339Nano))
+		return strconv.Quote(vi.Format(time.RFC3339))
+	case sql.RawBytes:
+		return unsafe.String(unsafe.SliceData(vi), len(vi))
 	case driver.Valuer:
-		rv := reflect.ValueOf(v)
-		if rv.Kind() == reflect.Pointer && rv.IsNil() && rv.Type().Elem().Implements(reflect.TypeFor[driver.Valuer]()) {
-			return "NULL"
-		}
-		val, err := vi.Value()
-		if err != nil {
-			return quote(err.Error())
-		}
-		if _, ok := val.(driver.Valuer); ok {
-			return quote(fmt.Sprint(val))
-		}
+		val, _ := vi.Value()
 		return strf(val)
-	}
-	vt := reflect.ValueOf(v)
-	switch vt.Kind() {
-	case reflect.String:
-		return quote(vt.String())
-	case reflect.Bool:
-		return strconv.FormatBool(vt.Bool())
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-		return strconv.FormatInt(vt.Int(), 10)
-	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return strconv.FormatUint(vt.Uint(), 10)
-	case reflect.Float32, reflect.Float64:
-		return formatFloat(vt.Float())
-	case reflect.Pointer:
-		if vt.IsNil() {
-			return "NULL"
-		}
-		return strf(vt.Elem().Interface())
-	case reflect.Slice:
-		if vt.Type().Elem().Kind() == reflect.Uint8 {
-			return strf(vt.Bytes())
+	default:
+		vt := reflect.ValueOf(v)
+		switch vt.Kind() {
+		case reflect.String:
+			return strconv.Quote(vt.String())
+		case reflect.Bool:
+			return strconv.FormatBool(vt.Bool())
+		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+			return strconv.FormatInt(vt.Int(), 10)
+		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+			return strconv.FormatUint(vt.Uint(), 10)
+		case reflect.Float32, reflect.Float64:
+			return strconv.FormatFloat(vt.Float(), 'f', 10, 64)
+		default:
+			panic("unreachable")
 		}
 	}
-	return quote(fmt.Sprint(v))
 }
diff --git a/examples/db/mysql/operator.go b/examples/db/mysql/operator.go
index 9cf1d6b..3d13778 100755
--- a/examples/db/mysql/operator.go
+++ b/examples/db/mysql/operator.go
@@ -62,10 +62,6 @@ func NotEqual[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 
 func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
-		if len(values) == 0 {
-			w.WriteString("1 = 0")
-			return
-		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
@@ -87,10 +83,6 @@ func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 
 func NotIn[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
-		if len(values) == 0 {
-			w.WriteString("1 = 1")
-			return
-		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
diff --git a/examples/db/postgres/db.go b/examples/db/postgres/db.go
index bbfcb5d..999dce9 100755
--- a/examples/db/postgres/db.go
+++ b/examples/db/postgres/db.go
@@ -6,12 +6,10 @@ import (
 	"context"
 	"database/sql"
 	"database/sql/driver"
-	"errors"
 	"fmt"
 	"iter"
-	"math"
 	"reflect"
-	"slices"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -32,7 +30,7 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 		query, args := v.InsertOneStmt()
 		return db.QueryRowContext(ctx, query, args...).Scan(model.Addrs()...)
 	default:
-		columns, args := insertColumns(model), insertValues(model)
+		columns, args := model.Columns(), model.Values()
 		stmt := strpool.AcquireString()
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ($1")
 		noOfArgs := len(args)
@@ -54,11 +52,13 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 	}
 
 	model := data[0]
-	columns := insertColumns(model)
+	columns := model.Columns()
 	stmt := strpool.AcquireString()
 
-	switch any(model).(type) {
+	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
+		_, idx, _ := v.PK()
+		columns = append(columns[:idx], columns[idx+1:]...)
 		noOfCols := len(columns)
 		cols := strings.Join(columns, ",")
 		args := make([]any, 0, noOfCols*noOfData)
@@ -69,7 +69,9 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, insertValues(data[i])...)
+			values := data[i].Values()
+			values = append(values[:idx], values[idx+1:]...)
+			args = append(args, values...)
 		}
 		stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
 		rows, err := db.QueryContext(ctx, stmt.String(), args...)
@@ -85,18 +87,15 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 			}
 			i++
 		}
-		if err := rows.Err(); err != nil {
-			return nil, err
-		}
 		return sequel.NewRowsAffectedResult(i), rows.Close()
 	default:
 		noOfCols := len(columns)
 		args := make([]any, 0, noOfCols*noOfData)
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES " + model.InsertPlaceholders(0))
-		args = append(args, insertValues(data[0])...)
+		args = append(args, data[0].Values()...)
 		for i := 1; i < noOfData; i++ {
 			stmt.WriteString("," + model.InsertPlaceholders(i))
-			args = append(args, insertValues(data[i])...)
+			args = append(args, data[i].Values()...)
 		}
 		stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
 		rows, err := db.QueryContext(ctx, stmt.String(), args...)
@@ -112,9 +111,6 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 			}
 			i++
 		}
-		if err := rows.Err(); err != nil {
-			return nil, err
-		}
 		return sequel.NewRowsAffectedResult(i), rows.Close()
 	}
 }
@@ -161,16 +157,18 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface {
 
 	var (
 		stmt     = strpool.AcquireString()
-		columns  = insertColumns(model)
+		columns  = model.Columns()
 		noOfCols = len(columns)
-		values   = insertValues(model)
+		values   = model.Values()
 	)
 	defer strpool.ReleaseString(stmt)
 
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		pkName, _, _ := v.PK()
+		pkName, idx, _ := v.PK()
 		opt.omitFields = append(opt.omitFields, pkName)
+		columns = append(columns[:idx], columns[idx+1:]...)
+		values = append(values[:idx], values[idx+1:]...)
 		// Don't include auto increment primary key on INSERT
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 	case sequel.PrimaryKeyer:
@@ -203,16 +201,15 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface {
 			panic("unreachable")
 		}
 	}
-	if omitter, ok := any(model).(setOnUpsertOmitter); ok {
-		opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
-	}
-	opt.doNothing = opt.doNothing || !hasUpdate(columns, opt.omitFields)
 	if opt.doNothing {
 		stmt.WriteString(" DO NOTHING")
 	} else {
 		stmt.WriteString(" DO UPDATE SET ")
 		omitDict := make(map[string]struct{})
 		noOfCols = len(columns)
+		if omitter, ok := any(model).(setOnUpsertOmitter); ok {
+			opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
+		}
 		for i := range opt.omitFields {
 			omitDict[opt.omitFields[i]] = struct{}{}
 		}
@@ -231,12 +228,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface {
 		clear(omitDict)
 	}
 	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
-	err := db.QueryRowContext(ctx, stmt.String(), values...).Scan(model.Addrs()...)
-	if opt.doNothing && errors.Is(err, sql.ErrNoRows) {
-		// The record exists, there is nothing to return
-		return nil
-	}
-	return err
+	return db.QueryRowContext(ctx, stmt.String(), values...).Scan(model.Addrs()...)
 }
 
 // Upsert is a helper function to upsert multiple records.
@@ -251,7 +243,7 @@ func Upsert[T interface {
 
 	var (
 		model    = data[0]
-		columns  = insertColumns(model)
+		columns  = model.Columns()
 		noOfCols = len(columns)
 		args     = make([]any, 0, noOfCols*noOfData)
 		opt      upsertOpts
@@ -264,8 +256,9 @@ func Upsert[T interface {
 	var stmt = strpool.AcquireString()
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		pkName, _, _ := v.PK()
+		pkName, idx, _ := v.PK()
 		opt.omitFields = append(opt.omitFields, pkName)
+		columns = append(columns[:idx], columns[idx+1:]...)
 		// Don't include auto increment primary key on INSERT
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 
@@ -275,7 +268,9 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, insertValues(data[i])...)
+			values := data[i].Values()
+			values = append(values[:idx], values[idx+1:]...)
+			args = append(args, values...)
 		}
 	case sequel.PrimaryKeyer:
 		pkName, _, _ := v.PK()
@@ -287,7 +282,7 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, insertValues(data[i])...)
+			args = append(args, data[i].Values()...)
 		}
 	case sequel.CompositeKeyer:
 		keyNames, _, _ := v.CompositeKey()
@@ -299,7 +294,7 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, insertValues(data[i])...)
+			args = append(args, data[i].Values()...)
 		}
 	default:
 		panic("unreachable")
@@ -326,15 +321,15 @@ func Upsert[T interface {
 			panic("unreachable")
 		}
 	}
-	if omitter, ok := any(model).(setOnUpsertOmitter); ok {
-		opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
-	}
-	opt.doNothing = opt.doNothing || !hasUpdate(columns, opt.omitFields)
 	if opt.doNothing {
 		stmt.WriteString(" DO NOTHING")
 	} else {
 		stmt.WriteString(" DO UPDATE SET ")
 		omitDict := make(map[string]struct{})
+		if omitter, ok := any(model).(setOnUpsertOmitter); ok {
+			opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
+		}
+		columns = model.Columns()
 		for i := range opt.omitFields {
 			omitDict[opt.omitFields[i]] = struct{}{}
 		}
@@ -352,13 +347,6 @@ func Upsert[T interface {
 		}
 		clear(omitDict)
 	}
-	if opt.doNothing {
-		// Existing records are not returned, so the returned rows don't match with the data
-		stmt.WriteByte(';')
-		result, err := db.ExecContext(ctx, stmt.String(), args...)
-		strpool.ReleaseString(stmt)
-		return result, err
-	}
 	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
 	rows, err := db.QueryContext(ctx, stmt.String(), args...)
 	strpool.ReleaseString(stmt) // Deallocate statement
@@ -373,9 +361,6 @@ func Upsert[T interface {
 		}
 		i++
 	}
-	if err := rows.Err(); err != nil {
-		return nil, err
-	}
 	return sequel.NewRowsAffectedResult(i), rows.Close()
 }
 
@@ -412,11 +397,11 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		query, args := v.UpdateOneByPKStmt()
 		return db.ExecContext(ctx, query, args...)
 	case sequel.PrimaryKeyer:
-		pkName, _, pk := v.PK()
-		columns, values := updateColumns(model, pkName)
-		if len(columns) == 0 {
-			columns, values = []string{pkName}, []any{pk}
-		}
+		pkName, pkIdx, pk := v.PK()
+		columns := model.Columns()
+		columns = append(columns[:pkIdx], columns[pkIdx+1:]...)
+		values := model.Values()
+		values = append(values[:pkIdx], append(values[pkIdx+1:], pk)...)
 		stmt := strpool.AcquireString()
 		defer strpool.ReleaseString(stmt)
 		stmt.WriteString("UPDATE " + DbTable(model) + " SET " + columns[0] + " = " + wrapVar(1))
@@ -424,28 +409,33 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		for i := 1; i < noOfColumn; i++ {
 			stmt.WriteString("," + columns[i] + " = " + wrapVar(i+1))
 		}
-		stmt.WriteString(" WHERE " + pkName + " = " + wrapVar(noOfColumn+1) + ";")
+		stmt.WriteString(" WHERE " + pkName + " = " + wrapVar(noOfColumn+2) + ";")
 		return db.ExecContext(ctx, stmt.String(), append(values, pk)...)
 	case sequel.CompositeKeyer:
-		keyNames, _, keys := v.CompositeKey()
-		columns, values := updateColumns(model, keyNames...)
-		if len(columns) == 0 {
-			columns, values = keyNames, slices.Clone(keys)
+		columns := model.Columns()
+		keyNames, keyIdxs, keys := v.CompositeKey()
+		values := model.Values()
+		sort.Ints(keyIdxs)
+		for i := len(keyIdxs) - 1; i >= 0; i-- {
+			columns = append(columns[:keyIdxs[i]], columns[keyIdxs[i]+1:]...)
+			values = append(values[:keyIdxs[i]], values[keyIdxs[i]+1:]...)
 		}
+		noOfColumn := len(columns)
+		args := make([]any, 0, noOfColumn+len(keys))
 		stmt := strpool.AcquireString()
 		defer strpool.ReleaseString(stmt)
 		stmt.WriteString("UPDATE " + DbTable(model) + " SET " + columns[0] + " = $1")
-		noOfColumn := len(columns)
 		for i := 1; i < noOfColumn; i++ {
 			stmt.WriteString("," + columns[i] + " = " + wrapVar(i+1))
 		}
 		stmt.WriteString(" WHERE (" + strings.Join(keyNames, ",") + ") = (" + wrapVar(noOfColumn+1))
 		noOfKey := len(keyNames)
 		for i := 1; i < noOfKey; i++ {
-			stmt.WriteString("," + wrapVar(noOfColumn+i+1))
+			stmt.WriteString("," + columns[i] + " = " + wrapVar(noOfColumn+i+1))
 		}
 		stmt.WriteString(");")
-		return db.ExecContext(ctx, stmt.String(), append(values, keys...)...)
+		args = append(args, values...)
+		return db.ExecContext(ctx, stmt.String(), append(args, keys...)...)
 	default:
 		panic("unreachable")
 	}
@@ -534,159 +524,317 @@ type Pager[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]] struct {
 	stmt *PaginateStmt
 }
 
-// Prev iterates backward, from the cursor or else from the last record.
 func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
-	return r.pages(ctx, db, false, cursor)
-}
-
-// Next iterates forward, from the cursor or else from the first record.
-func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
-	return r.pages(ctx, db, true, cursor)
-}
-
-func (r *Pager[T, Ptr]) pages(ctx context.Context, db *sql.DB, forward bool, cursor []T) iter.Seq2[[]T, error] {
 	return func(yield func([]T, error) bool) {
 		var (
-			from     Ptr
-			maxLimit = int(r.stmt.Limit)
+			v         T
+			hasCursor bool
+			maxLimit  = r.stmt.Limit
 		)
 		if len(cursor) > 0 {
-			v := cursor[0]
-			from = &v
-			if err := FindByPK[T](ctx, db, from); err != nil {
-				yield(nil, err)
-				return
-			}
+			v = cursor[0]
+			hasCursor = true
 		}
+		blr := AcquireStmt()
+		defer ReleaseStmt(blr)
+
 		for {
+			if hasCursor {
+				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
+					yield(nil, err)
+					return
+				}
+			}
+
+			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
+			if r.stmt.Where != nil {
+				r.stmt.Where(blr)
+			}
+
+			if n := len(r.stmt.OrderBy); n > 0 {
+				colDict := make(map[string]int)
+				columns := v.Columns()
+				values := v.Values()
+				for i := range columns {
+					colDict[columns[i]] = i
+				}
+
+				buf := strpool.AcquireString()
+				for i := 0; i < n; i++ {
+					orderedColumn := r.stmt.OrderBy[i]
+					columnName := orderedColumn.ColumnName()
+					value := values[colDict[columnName]]
+					if orderedColumn.Asc() {
+						// If ascending
+						blr.WriteString(columnName + " <= " + blr.Var(value) + " AND ")
+						buf.WriteString(columnName + " < " + blr.Var(value) + " OR ")
+					} else {
+						// If descending
+						blr.WriteString(columnName + " >= " + blr.Var(value) + " AND ")
+						buf.WriteString(columnName + " > " + blr.Var(value) + " OR ")
+					}
+				}
+				clear(colDict)
+				blr.WriteString("(" + buf.String())
+				strpool.ReleaseString(buf)
+			}
+
+			if hasCursor {
+				// Check the primary key and compare value
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, vals := vi.CompositeKey()
+					blr.WriteString("((" + strings.Join(pkNames, ",") + ") <= " + blr.Vars(vals) + ")")
+				case sequel.PrimaryKeyer:
+					pkName, _, val := vi.PK()
+					blr.WriteString("(" + pkName + " <= " + blr.Var(val) + ")")
+				default:
+					panic("unreachable")
+				}
+			}
+
+			blr.WriteString(" ORDER BY ")
+			if len(r.stmt.OrderBy) > 0 {
+				for i := range r.stmt.OrderBy {
+					if r.stmt.OrderBy[i].Asc() {
+						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
+					} else {
+						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
+					}
+				}
+				var (
+					suffix  = " DESC"
+					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
+				)
+				if lastCol.Asc() {
+					suffix = " ASC"
+				}
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, _ := vi.CompositeKey()
+					blr.WriteString("(" + strings.Join(pkNames, ",") + ")" + suffix)
+				case sequel.PrimaryKeyer:
+					pkName, _, _ := vi.PK()
+					blr.WriteString(pkName + suffix)
+				default:
+					panic("unreachable")
+				}
+			} else {
+				// If there is no order by clause,
+				// descending is the default order
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, _ := vi.CompositeKey()
+					blr.WriteString("(" + strings.Join(pkNames, ",") + ") DESC")
+				case sequel.PrimaryKeyer:
+					pkName, _, _ := vi.PK()
+					blr.WriteString(pkName + " DESC")
+				default:
+					panic("unreachable")
+				}
+			}
 			// Add one to limit to find next cursor
-			data, err := r.fetch(ctx, db, forward, from, maxLimit+1)
+			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
+
+			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
+			blr.Reset()
 			if err != nil {
 				yield(nil, err)
 				return
 			}
-			if len(data) <= maxLimit {
-				yield(data, nil)
+
+			data := make([]T, 0, r.stmt.Limit+1)
+			for rows.Next() {
+				var v T
+				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
+					rows.Close()
+					yield(nil, err)
+					return
+				}
+				data = append(data, v)
+			}
+			rows.Close()
+
+			noOfRecord := len(data)
+			if uint16(noOfRecord) <= maxLimit {
+				if !yield(data, nil) {
+					return
+				}
 				return
 			}
-			next := data[maxLimit] // Set next cursor
-			from = &next
-			if !yield(data[:maxLimit:maxLimit], nil) {
+
+			if !yield(data[:noOfRecord-1], nil) {
 				return
 			}
+
+			v = data[noOfRecord-1] // Set next cursor
+			data = nil             // Reset result
+			hasCursor = true
 		}
 	}
 }
 
-// fetch returns the records of a page, the first one is the cursor.
-func (r *Pager[T, Ptr]) fetch(ctx context.Context, db *sql.DB, forward bool, cursor Ptr, limit int) ([]T, error) {
-	var (
-		v       T
-		keys    []string
-		values  []any
-		orderBy = slices.Clone(r.stmt.OrderBy)
-		asc     = len(orderBy) == 0 || orderBy[len(orderBy)-1].Asc()
-	)
-	if cursor != nil {
-		v = *cursor
-	}
-	switch vi := any(v).(type) {
-	case sequel.CompositeKeyer:
-		keys, _, values = vi.CompositeKey()
-	case sequel.PrimaryKeyer:
-		name, _, value := vi.PK()
-		keys, values = []string{name}, []any{value}
-	default:
-		panic("unreachable")
-	}
-	// The key is the tie-breaker
-	for i := range keys {
-		orderBy = append(orderBy, sequel.OrderByColumn(keys[i], asc))
-	}
-
-	blr := AcquireStmt()
-	defer ReleaseStmt(blr)
-	blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v))
-	if r.stmt.Where != nil {
-		blr.WriteString(" WHERE (")
-		r.stmt.Where(blr)
-		blr.WriteByte(')')
-	}
-	if cursor != nil {
-		if r.stmt.Where != nil {
-			blr.WriteString(" AND ")
-		} else {
-			blr.WriteString(" WHERE ")
+func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return func(yield func([]T, error) bool) {
+		var (
+			v         T
+			hasCursor bool
+			maxLimit  = r.stmt.Limit
+		)
+		if len(cursor) > 0 {
+			v = cursor[0]
+			hasCursor = true
 		}
-		// Compare the columns with those of the cursor, in priority order
-		for i := range orderBy {
-			name, op := orderBy[i].ColumnName(), " < "
-			asc := orderBy[i].Asc() == forward
-			if asc {
-				op = " > "
-			}
-			if n := i - len(r.stmt.OrderBy); n >= 0 {
-				if n == len(keys)-1 {
-					// The cursor itself is included
-					blr.WriteString(name + op[:2] + "= " + blr.Var(values[n]))
-				} else {
-					blr.WriteString("(" + name + op + blr.Var(values[n]) + " OR (" + name + " = " + blr.Var(values[n]) + " AND ")
+		blr := AcquireStmt()
+		defer ReleaseStmt(blr)
+
+		for {
+			if hasCursor {
+				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
+					yield(nil, err)
+					return
 				}
-				continue
 			}
-			value := func() string {
-				str := "(SELECT " + name + " FROM " + DbTable(v) + " WHERE "
-				for j := range keys {
-					if j > 0 {
-						str += " AND "
+
+			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
+			if r.stmt.Where != nil {
+				r.stmt.Where(blr)
+			}
+
+			if len(r.stmt.OrderBy) > 0 {
+				colDict := make(map[string]int)
+				columns := v.Columns()
+				values := v.Values()
+				for i := range columns {
+					colDict[columns[i]] = i
+				}
+
+				for i, orderBy := range r.stmt.OrderBy {
+					colName := orderBy.ColumnName()
+					val := values[colDict[colName]]
+					if i > 0 {
+						blr.WriteString(" AND ")
+					}
+					if orderBy.Asc() {
+						// If ascending
+						blr.WriteString(colName + " >= " + blr.Var(val))
+					} else {
+						// If descending
+						blr.WriteString(colName + " <= " + blr.Var(val))
+					}
+				}
+				blr.WriteString(" AND (")
+				for i, orderBy := range r.stmt.OrderBy {
+					colName := orderBy.ColumnName()
+					val := values[colDict[colName]]
+					if i > 0 {
+						blr.WriteString(" OR ")
+					}
+					if orderBy.Asc() {
+						// If ascending
+						blr.WriteString(colName + " > " + blr.Var(val))
+					} else {
+						// If descending
+						blr.WriteString(colName + " < " + blr.Var(val))
 					}
-					str += keys[j] + " = " + blr.Var(values[j])
 				}
-				return str + ")"
+				clear(colDict)
+				blr.WriteString(" OR ")
 			}
-			blr.WriteString("(" + name + op + value())
-			nullsLast := asc
-			if nullsLast {
-				blr.WriteString(" OR (" + name + " IS NULL AND " + value() + " IS NOT NULL)")
-			} else {
-				blr.WriteString(" OR (" + name + " IS NOT NULL AND " + value() + " IS NULL)")
+
+			if hasCursor {
+				// Check the primary key and compare value
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, vals := vi.CompositeKey()
+					blr.WriteString("((" + strings.Join(pkNames, ",") + ") >= " + blr.Vars(vals) + ")")
+				case sequel.PrimaryKeyer:
+					pkName, _, val := vi.PK()
+					blr.WriteString("(" + pkName + " >= " + blr.Var(val) + ")")
+				default:
+					panic("unreachable")
+				}
 			}
-			blr.WriteString(" OR ((" + name + " = " + value() + " OR (" + name + " IS NULL AND " + value() + " IS NULL)) AND ")
-		}
-		blr.WriteString(strings.Repeat("))", len(orderBy)-1))
-	}
-	for i := range orderBy {
-		if i > 0 {
-			blr.WriteByte(',')
-		} else {
+
 			blr.WriteString(" ORDER BY ")
-		}
-		if orderBy[i].Asc() == forward {
-			blr.WriteString(orderBy[i].ColumnName() + " ASC")
-		} else {
-			blr.WriteString(orderBy[i].ColumnName() + " DESC")
-		}
-	}
-	blr.WriteString(" LIMIT " + strconv.Itoa(limit) + ";")
+			if len(r.stmt.OrderBy) > 0 {
+				for i := range r.stmt.OrderBy {
+					if r.stmt.OrderBy[i].Asc() {
+						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
+					} else {
+						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
+					}
+				}
+				var (
+					suffix  = " ASC"
+					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
+				)
+				if !lastCol.Asc() {
+					suffix = " DESC"
+				}
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, _ := vi.CompositeKey()
+					blr.WriteString("(" + strings.Join(pkNames, ",") + ")" + suffix)
+				case sequel.PrimaryKeyer:
+					pkName, _, _ := vi.PK()
+					blr.WriteString(pkName + suffix)
+				default:
+					panic("unreachable")
+				}
+			} else {
+				// If there is no order by clause,
+				// ascending is the default order
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, _ := vi.CompositeKey()
+					blr.WriteString("(" + strings.Join(pkNames, ",") + ") ASC")
+				case sequel.PrimaryKeyer:
+					pkName, _, _ := vi.PK()
+					blr.WriteString(pkName)
+				default:
+					panic("unreachable")
+				}
+			}
+			// Add one to limit to find next cursor
+			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
 
-	rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
-	if err != nil {
-		return nil, err
-	}
-	defer rows.Close()
+			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
+			blr.Reset()
+			if err != nil {
+				yield(nil, err)
+				return
+			}
 
-	data := []T{}
-	for rows.Next() {
-		var v T
-		if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
-			return nil, err
+			data := make([]T, 0, r.stmt.Limit+1)
+			for rows.Next() {
+				var v T
+				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
+					rows.Close()
+					yield(nil, err)
+					return
+				}
+				data = append(data, v)
+			}
+			rows.Close()
+
+			noOfRecord := len(data)
+			if uint16(noOfRecord) <= maxLimit {
+				if !yield(data, nil) {
+					return
+				}
+				return
+			}
+
+			if !yield(data[:noOfRecord-1], nil) {
+				return
+			}
+
+			v = data[noOfRecord-1] // Set next cursor
+			data = nil             // Reset result
+			hasCursor = true
 		}
-		data = append(data, v)
-	}
-	if err := rows.Err(); err != nil {
-		return nil, err
 	}
-	return data, rows.Close()
 }
 
 type SelectStmt struct {
@@ -771,9 +919,6 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 		}
 		result = append(result, v)
 	}
-	if err := rows.Err(); err != nil {
-		return nil, err
-	}
 	if err := rows.Close(); err != nil {
 		return nil, err
 	}
@@ -810,7 +955,6 @@ func QueryOneStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.
 		case sequel.Tabler:
 			blr.WriteString(" FROM " + DbTable(vj))
 		default:
-			ReleaseStmt(blr)
 			return nil, fmt.Errorf("missing table name for model %T", v)
 		}
 	}
@@ -870,7 +1014,7 @@ func ExecStmt[T any, Stmt interface {
 
 	switch vi := any(stmt).(type) {
 	case UpdateStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok && vi.Table == "" {
+		if vt, ok := any(v).(sequel.Tabler); ok {
 			blr.WriteString("UPDATE " + DbTable(vt))
 		} else {
 			blr.WriteString("UPDATE " + dbName(v) + vi.Table)
@@ -902,7 +1046,7 @@ func ExecStmt[T any, Stmt interface {
 			}
 		}
 	case DeleteStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok && vi.FromTable == "" {
+		if vt, ok := any(v).(sequel.Tabler); ok {
 			blr.WriteString("DELETE FROM " + DbTable(vt))
 		} else {
 			blr.WriteString("DELETE FROM " + dbName(v) + vi.FromTable)
@@ -1017,32 +1161,28 @@ func (s *SqlStmt) Format(f fmt.State, verb rune) {
 	}
 
 	var (
-		buf = make([]byte, 0, len(str)*2)
-		pos int
+		args = make([]any, len(s.args))
+		idx  int
+		i    = 1
 	)
-	for i := 0; i < len(str); {
-		if n := skipText(str[i:]); n > 0 {
-			buf = append(buf, str[i:i+n]...)
-			i += n
-			continue
-		}
-		n := 0
-		if strings.HasPrefix(str[i:], `$`) && (i == 0 || !isIdentByte(str[i-1])) {
-			n = len(`$`)
-			for i+n < len(str) && str[i+n] >= '0' && str[i+n] <= '9' {
-				n++
-			}
-			pos, _ = strconv.Atoi(str[i+len(`$`) : i+n])
-		}
-		if n > 0 && pos > 0 && pos <= len(s.args) {
-			buf = append(buf, strf(s.args[pos-1])...)
-		} else {
-			n = max(n, 1)
-			buf = append(buf, str[i:i+n]...)
+
+	copy(args, s.args)
+
+	for {
+		placeholder := wrapVar(i)
+		idx = strings.Index(str, placeholder)
+		if idx < 0 {
+			f.Write(unsafe.Slice(unsafe.StringData(str), len(str)))
+			break
 		}
-		i += n
+
+		f.Write([]byte(str[:idx]))
+		v := strf(args[0])
+		f.Write(unsafe.Slice(unsafe.StringData(v), len(v)))
+		str = str[idx+len(placeholder):]
+		args = args[1:]
+		i++
 	}
-	f.Write(buf)
 }
 
 func (s *SqlStmt) Reset() {
@@ -1065,53 +1205,6 @@ func TableColumns[T sequel.Columner](model T) []string {
 	return model.Columns()
 }
 
-// insertColumns returns the columns to insert, without the auto increment key
-// and the columns which are readonly.
-func insertColumns[T sequel.Columner](model T) []string {
-	if v, ok := any(model).(sequel.InsertColumner); ok {
-		return v.InsertColumns()
-	}
-	columns := model.Columns()
-	if v, ok := any(model).(sequel.AutoIncrKeyer); ok {
-		_, idx, _ := v.PK()
-		return slices.Delete(slices.Clone(columns), idx, idx+1)
-	}
-	return columns
-}
-
-// insertValues returns the values of the columns from insertColumns.
-func insertValues[T sequel.Valuer](model T) []any {
-	values := model.Values()
-	if _, ok := any(model).(sequel.InsertColumner); ok {
-		return values
-	}
-	if v, ok := any(model).(sequel.AutoIncrKeyer); ok {
-		_, idx, _ := v.PK()
-		return slices.Delete(slices.Clone(values), idx, idx+1)
-	}
-	return values
-}
-
-// updateColumns returns the columns to update, without the keys, and their values.
-func updateColumns[T sequel.ColumnValuer](model T, keys ...string) ([]string, []any) {
-	columns, values := insertColumns(model), insertValues(model)
-	cols, args := make([]string, 0, len(columns)), make([]any, 0, len(columns)+len(keys))
-	for i := range columns {
-		if !slices.Contains(keys, columns[i]) {
-			cols = append(cols, columns[i])
-			args = append(args, values[i])
-		}
-	}
-	return cols, args
-}
-
-// hasUpdate tells whether any of the columns is not omitted.
-func hasUpdate(columns, omitted []string) bool {
-	return slices.ContainsFunc(columns, func(column string) bool {
-		return !slices.Contains(omitted, column)
-	})
-}
-
 func dbName(model any) string {
 	if v, ok := model.(sequel.Databaser); ok {
 		return v.DatabaseName() + "."
@@ -1123,111 +1216,42 @@ func wrapVar(i int) string {
 	return `$` + strconv.Itoa(i)
 }
 
-// skipText returns the length of the string literal, quoted identifier or
-// comment that s starts with, or zero. There are no placeholders in these.
-func skipText(s string) int {
-	switch {
-	case strings.HasPrefix(s, "--"):
-		if i := strings.IndexByte(s, '\n'); i >= 0 {
-			return i
-		}
-		return len(s)
-	case strings.HasPrefix(s, "/*"):
-		if i := strings.Index(s[2:], "*/"); i >= 0 {
-			return i + 4
-		}
-		return len(s)
-	}
-	i, escape := 1, false
-	if len(s) > 1 && (s[0] == 'E' || s[0] == 'e') && s[1] == '\'' {
-		i, escape = 2, true
-	}
-	end := s[i-1]
-	if end != '\'' && end != '"' {
-		return 0
-	}
-	for ; i < len(s); i++ {
-		if s[i] == end {
-			return i + 1
-		}
-		if escape && end != '`' && s[i] == '\\' {
-			i++
-		}
-	}
-	return len(s)
-}
-
-func isIdentByte(c byte) bool {
-	return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
-}
-
-// quote returns the string literal of s.
-func quote(s string) string {
-	return pgutil.Quote(s)
-}
-
-func formatFloat(f float64) string {
-	if math.IsNaN(f) || math.IsInf(f, 0) {
-		return quote(strconv.FormatFloat(f, 'g', -1, 64))
-	}
-	return strconv.FormatFloat(f, 'g', -1, 64)
-}
-
-// strf returns the literal of the value.
 func strf(v any) string {
 	switch vi := v.(type) {
 	case nil:
 		return "NULL"
 	case string:
-		return quote(vi)
+		return pgutil.Quote(vi)
 	case []byte:
-		if vi == nil {
-			return "NULL"
-		}
-		return quote(string(vi))
+		return pgutil.Quote(unsafe.String(unsafe.SliceData(vi), len(vi)))
 	case bool:
 		return strconv.FormatBool(vi)
 	case int64:
 		return strconv.FormatInt(vi, 10)
 	case float64:
-		return formatFloat(vi)
+		return strconv.FormatFloat(vi, 'f', 10, 64)
 	case time.Time:
-		return quote(vi.Format(time.RFC3339Nano))
+		return strconv.Quote(vi.Format(time.RFC3339))
+	case sql.RawBytes:
+		return unsafe.String(unsafe.SliceData(vi), len(vi))
 	case driver.Valuer:
-		rv := reflect.ValueOf(v)
-		if rv.Kind() == reflect.Pointer && rv.IsNil() && rv.Type().Elem().Implements(reflect.TypeFor[driver.Valuer]()) {
-			return "NULL"
-		}
-		val, err := vi.Value()
-		if err != nil {
-			return quote(err.Error())
-		}
-		if _, ok := val.(driver.Valuer); ok {
-			return quote(fmt.Sprint(val))
-		}
+		val, _ := vi.Value()
 		return strf(val)
-	}
-	vt := reflect.ValueOf(v)
-	switch vt.Kind() {
-	case reflect.String:
-		return quote(vt.String())
-	case reflect.Bool:
-		return strconv.FormatBool(vt.Bool())
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-		return strconv.FormatInt(vt.Int(), 10)
-	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return strconv.FormatUint(vt.Uint(), 10)
-	case reflect.Float32, reflect.Float64:
-		return formatFloat(vt.Float())
-	case reflect.Pointer:
-		if vt.IsNil() {
-			return "NULL"
-		}
-		return strf(vt.Elem().Interface())
-	case reflect.Slice:
-		if vt.Type().Elem().Kind() == reflect.Uint8 {
-			return strf(vt.Bytes())
+	default:
+		vt := reflect.ValueOf(v)
+		switch vt.Kind() {
+		case reflect.String:
+			return pgutil.Quote(vt.String())
+		case reflect.Bool:
+			return strconv.FormatBool(vt.Bool())
+		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+			return strconv.FormatInt(vt.Int(), 10)
+		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+			return strconv.FormatUint(vt.Uint(), 10)
+		case reflect.Float32, reflect.Float64:
+			return strconv.FormatFloat(vt.Float(), 'f', 10, 64)
+		default:
+			panic("unreachable")
 		}
 	}
-	return quote(fmt.Sprint(v))
 }
diff --git a/examples/db/postgres/operator.go b/examples/db/postgres/operator.go
index 2a43ca3..b9e00bc 100755
--- a/examples/db/postgres/operator.go
+++ b/examples/db/postgres/operator.go
@@ -62,10 +62,6 @@ func NotEqual[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 
 func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
-		if len(values) == 0 {
-			w.WriteString("1 = 0")
-			return
-		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
@@ -87,10 +83,6 @@ func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 
 func NotIn[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
-		if len(values) == 0 {
-			w.WriteString("1 = 1")
-			return
-		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
diff --git a/examples/db/sqlite/db.go b/examples/db/sqlite/db.go
index c106896..76453d4 100755
--- a/examples/db/sqlite/db.go
+++ b/examples/db/sqlite/db.go
@@ -8,9 +8,8 @@ import (
 	"database/sql/driver"
 	"fmt"
 	"iter"
-	"math"
 	"reflect"
-	"slices"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -47,7 +46,7 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 		query, args := v.InsertOneStmt()
 		return db.ExecContext(ctx, query, args...)
 	default:
-		columns, args := insertColumns(model), insertValues(model)
+		columns, args := model.Columns(), model.Values()
 		query := "INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat("?,", len(columns)-1) + "?);"
 		return db.ExecContext(ctx, query, args...)
 	}
@@ -61,11 +60,13 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 	}
 
 	model := data[0]
-	columns := insertColumns(model)
+	columns := model.Columns()
 	stmt := strpool.AcquireString()
 
-	switch any(model).(type) {
+	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
+		_, idx, _ := v.PK()
+		columns = append(columns[:idx], columns[idx+1:]...)
 		noOfCols := len(columns)
 		cols := strings.Join(columns, ",")
 		args := make([]any, 0, noOfCols*noOfData)
@@ -77,7 +78,9 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 			} else {
 				stmt.WriteString(placeholder)
 			}
-			args = append(args, insertValues(data[i])...)
+			values := data[i].Values()
+			values = append(values[:idx], values[idx+1:]...)
+			args = append(args, values...)
 		}
 		stmt.WriteByte(';')
 		result, err := db.ExecContext(ctx, stmt.String(), args...)
@@ -89,10 +92,10 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 		args := make([]any, 0, noOfCols*noOfData)
 		placeholder := "(" + strings.Repeat(",?", noOfCols)[1:] + ")"
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES " + placeholder)
-		args = append(args, insertValues(data[0])...)
+		args = append(args, data[0].Values()...)
 		for i := 1; i < noOfData; i++ {
 			stmt.WriteString("," + placeholder)
-			args = append(args, insertValues(data[i])...)
+			args = append(args, data[i].Values()...)
 		}
 		stmt.WriteByte(';')
 		result, err := db.ExecContext(ctx, stmt.String(), args...)
@@ -101,48 +104,38 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 	}
 }
 
-const (
-	insertIgnore = "INSERT OR IGNORE INTO "
-	onConflict   = " ON CONFLICT DO UPDATE SET "
-)
-
-// newValue is the value which is proposed for insertion.
-func newValue(column string) string {
-	return "excluded." + column
-}
-
 func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Context, db *sql.DB, model Ptr, override bool, omittedFields ...string) (sql.Result, error) {
 	stmt := strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
 	switch v := any(model).(type) {
 	case sequel.PrimaryKeyer:
 		pkName, idx, _ := v.PK()
-		columns := insertColumns(model)
-		if !override || !hasUpdate(columns, append(omittedFields, pkName)) {
-			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
+		columns := model.Columns()
+		if !override {
+			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
 			omitDict := map[string]struct{}{pkName: {}}
 			for i := range omittedFields {
 				omitDict[omittedFields[i]] = struct{}{}
 			}
 			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ")" + onConflict)
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
 			first := true
 			for i := range columns {
 				if _, ok := omitDict[columns[i]]; ok {
 					continue
 				}
 				if first {
-					stmt.WriteString(columns[i] + " =" + newValue(columns[i]))
+					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
 				} else {
-					stmt.WriteString("," + columns[i] + " =" + newValue(columns[i]))
+					stmt.WriteString("," + columns[i] + " =VALUES(" + columns[i] + ")")
 				}
 				first = false
 			}
 			clear(omitDict)
 		}
 		if _, ok := any(model).(sequel.AutoIncrKeyer); ok {
-			result, err := db.ExecContext(ctx, stmt.String(), insertValues(model)...)
+			result, err := db.ExecContext(ctx, stmt.String(), model.Values()...)
 			if err != nil {
 				return nil, err
 			}
@@ -162,38 +155,36 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 			}
 			return result, nil
 		}
-		return db.ExecContext(ctx, stmt.String(), insertValues(model)...)
+		return db.ExecContext(ctx, stmt.String(), model.Values()...)
 	case sequel.CompositeKeyer:
-		names, _, _ := v.CompositeKey()
-		columns := insertColumns(model)
-		if !override || !hasUpdate(columns, append(omittedFields, names...)) {
-			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
+		names, idxs, _ := v.CompositeKey()
+		columns := model.Columns()
+		if !override {
+			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
-			// Exclude composite key, don't update it
 			dict := make(map[string]struct{})
-			for i := range names {
-				dict[names[i]] = struct{}{}
-			}
-			for i := range omittedFields {
+			for i := range append(names, omittedFields...) {
 				dict[omittedFields[i]] = struct{}{}
 			}
 			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ")" + onConflict)
-			first := true
+			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
+			// Exclude composite key, don't update it
+			for i := len(idxs) - 1; i >= 0; i-- {
+				columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
+			}
 			for i := range columns {
 				if _, ok := dict[columns[i]]; ok {
 					continue
 				}
-				if first {
-					stmt.WriteString(columns[i] + " =" + newValue(columns[i]))
+				if i < noOfCols-1 {
+					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + "),")
 				} else {
-					stmt.WriteString("," + columns[i] + " =" + newValue(columns[i]))
+					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
 				}
-				first = false
 			}
 			clear(dict)
 		}
-		return db.ExecContext(ctx, stmt.String(), insertValues(model)...)
+		return db.ExecContext(ctx, stmt.String(), model.Values()...)
 	default:
 		panic("unreachable")
 	}
@@ -211,7 +202,7 @@ func Upsert[T interface {
 
 	var (
 		model    = data[0]
-		columns  = insertColumns(model)
+		columns  = model.Columns()
 		noOfCols = len(columns)
 		args     = make([]any, 0, noOfCols*noOfData)
 	)
@@ -220,14 +211,14 @@ func Upsert[T interface {
 	defer strpool.ReleaseString(stmt)
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		pkName, _, _ := v.PK()
+		pkName, idx, _ := v.PK()
 		omittedFields = append(omittedFields, pkName)
-		override = override && hasUpdate(columns, omittedFields)
 		// Don't include auto increment primary key on INSERT
+		columns = append(columns[:idx], columns[idx+1:]...)
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		placeholder := ",(" + strings.Repeat(",?", noOfCols)[1:] + ")"
 		for i := 0; i < noOfData; i++ {
@@ -236,16 +227,17 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(placeholder[1:])
 			}
-			args = append(args, insertValues(data[i])...)
+			values := data[i].Values()
+			values = append(values[:idx], values[idx+1:]...)
+			args = append(args, values...)
 		}
 	case sequel.PrimaryKeyer:
 		pkName, _, _ := v.PK()
 		omittedFields = append(omittedFields, pkName)
-		override = override && hasUpdate(columns, omittedFields)
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		for i := 0; i < noOfData; i++ {
 			if i > 0 {
@@ -253,17 +245,13 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, insertValues(data[i])...)
+			args = append(args, data[i].Values()...)
 		}
 	case sequel.CompositeKeyer:
-		// Exclude composite key, don't update it
-		keyNames, _, _ := v.CompositeKey()
-		omittedFields = append(omittedFields, keyNames...)
-		override = override && hasUpdate(columns, omittedFields)
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
-			stmt.WriteString(insertIgnore + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		}
 		for i := 0; i < noOfData; i++ {
 			if i > 0 {
@@ -271,11 +259,16 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			args = append(args, insertValues(data[i])...)
+			args = append(args, data[i].Values()...)
+		}
+		_, idxs, _ := v.CompositeKey()
+		// Exclude primary key, don't update it
+		for i := len(idxs) - 1; i >= 0; i-- {
+			columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
 		}
 	}
 	if override {
-		stmt.WriteString(onConflict)
+		stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
 		// Don't update primary key when we do upsert
 		omitDict := map[string]struct{}{}
 		for i := range omittedFields {
@@ -288,9 +281,9 @@ func Upsert[T interface {
 				continue
 			}
 			if first {
-				stmt.WriteString(columns[i] + "=" + newValue(columns[i]))
+				stmt.WriteString(columns[i] + "=VALUES(" + columns[i] + ")")
 			} else {
-				stmt.WriteString("," + columns[i] + "=" + newValue(columns[i]))
+				stmt.WriteString("," + columns[i] + "=VALUES(" + columns[i] + ")")
 			}
 			first = false
 		}
@@ -324,20 +317,25 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		query, args := v.UpdateOneByPKStmt()
 		return db.ExecContext(ctx, query, args...)
 	case sequel.PrimaryKeyer:
-		pkName, _, pk := v.PK()
-		columns, values := updateColumns(model, pkName)
-		if len(columns) == 0 {
-			columns, values = []string{pkName}, []any{pk}
-		}
+		pkName, pkIdx, pk := v.PK()
+		columns := model.Columns()
+		columns = append(columns[:pkIdx], columns[pkIdx+1:]...)
+		values := model.Values()
+		values = append(values[:pkIdx], append(values[pkIdx+1:], pk)...)
 		return db.ExecContext(ctx, "UPDATE "+DbTable(model)+" SET "+strings.Join(columns, " = ?,")+" = ? WHERE "+pkName+" = ?;", append(values, pk)...)
 	case sequel.CompositeKeyer:
-		keyNames, _, keys := v.CompositeKey()
-		columns, values := updateColumns(model, keyNames...)
-		if len(columns) == 0 {
-			columns, values = keyNames, slices.Clone(keys)
+		columns := model.Columns()
+		keyNames, keyIdxs, keys := v.CompositeKey()
+		values := model.Values()
+		sort.Ints(keyIdxs)
+		for i := len(keyIdxs) - 1; i >= 0; i-- {
+			columns = append(columns[:keyIdxs[i]], columns[keyIdxs[i]+1:]...)
+			values = append(values[:keyIdxs[i]], values[keyIdxs[i]+1:]...)
 		}
+		noOfColumn := len(columns)
+		args := make([]any, 0, noOfColumn+len(keys))
 		query := "UPDATE " + DbTable(model) + " SET " + strings.Join(columns, " = ?,") + " = ? WHERE (" + strings.Join(keyNames, ",") + ") = (?" + strings.Repeat(",?", len(keyNames)-1) + ");"
-		return db.ExecContext(ctx, query, append(values, keys...)...)
+		return db.ExecContext(ctx, query, append(args, keys...)...)
 	default:
 		panic("unreachable")
 	}
@@ -408,159 +406,317 @@ type Pager[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]] struct {
 	stmt *PaginateStmt
 }
 
-// Prev iterates backward, from the cursor or else from the last record.
 func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
-	return r.pages(ctx, db, false, cursor)
-}
-
-// Next iterates forward, from the cursor or else from the first record.
-func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
-	return r.pages(ctx, db, true, cursor)
-}
-
-func (r *Pager[T, Ptr]) pages(ctx context.Context, db *sql.DB, forward bool, cursor []T) iter.Seq2[[]T, error] {
 	return func(yield func([]T, error) bool) {
 		var (
-			from     Ptr
-			maxLimit = int(r.stmt.Limit)
+			v         T
+			hasCursor bool
+			maxLimit  = r.stmt.Limit
 		)
 		if len(cursor) > 0 {
-			v := cursor[0]
-			from = &v
-			if err := FindByPK[T](ctx, db, from); err != nil {
-				yield(nil, err)
-				return
-			}
+			v = cursor[0]
+			hasCursor = true
 		}
+		blr := AcquireStmt()
+		defer ReleaseStmt(blr)
+
 		for {
+			if hasCursor {
+				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
+					yield(nil, err)
+					return
+				}
+			}
+
+			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
+			if r.stmt.Where != nil {
+				r.stmt.Where(blr)
+			}
+
+			if n := len(r.stmt.OrderBy); n > 0 {
+				colDict := make(map[string]int)
+				columns := v.Columns()
+				values := v.Values()
+				for i := range columns {
+					colDict[columns[i]] = i
+				}
+
+				buf := strpool.AcquireString()
+				for i := 0; i < n; i++ {
+					orderedColumn := r.stmt.OrderBy[i]
+					columnName := orderedColumn.ColumnName()
+					value := values[colDict[columnName]]
+					if orderedColumn.Asc() {
+						// If ascending
+						blr.WriteString(columnName + " <= " + blr.Var(value) + " AND ")
+						buf.WriteString(columnName + " < " + blr.Var(value) + " OR ")
+					} else {
+						// If descending
+						blr.WriteString(columnName + " >= " + blr.Var(value) + " AND ")
+						buf.WriteString(columnName + " > " + blr.Var(value) + " OR ")
+					}
+				}
+				clear(colDict)
+				blr.WriteString("(" + buf.String())
+				strpool.ReleaseString(buf)
+			}
+
+			if hasCursor {
+				// Check the primary key and compare value
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, vals := vi.CompositeKey()
+					blr.WriteString("((" + strings.Join(pkNames, ",") + ") <= " + blr.Vars(vals) + ")")
+				case sequel.PrimaryKeyer:
+					pkName, _, val := vi.PK()
+					blr.WriteString("(" + pkName + " <= " + blr.Var(val) + ")")
+				default:
+					panic("unreachable")
+				}
+			}
+
+			blr.WriteString(" ORDER BY ")
+			if len(r.stmt.OrderBy) > 0 {
+				for i := range r.stmt.OrderBy {
+					if r.stmt.OrderBy[i].Asc() {
+						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
+					} else {
+						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
+					}
+				}
+				var (
+					suffix  = " DESC"
+					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
+				)
+				if lastCol.Asc() {
+					suffix = " ASC"
+				}
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, _ := vi.CompositeKey()
+					blr.WriteString("(" + strings.Join(pkNames, ",") + ")" + suffix)
+				case sequel.PrimaryKeyer:
+					pkName, _, _ := vi.PK()
+					blr.WriteString(pkName + suffix)
+				default:
+					panic("unreachable")
+				}
+			} else {
+				// If there is no order by clause,
+				// descending is the default order
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, _ := vi.CompositeKey()
+					blr.WriteString("(" + strings.Join(pkNames, ",") + ") DESC")
+				case sequel.PrimaryKeyer:
+					pkName, _, _ := vi.PK()
+					blr.WriteString(pkName + " DESC")
+				default:
+					panic("unreachable")
+				}
+			}
 			// Add one to limit to find next cursor
-			data, err := r.fetch(ctx, db, forward, from, maxLimit+1)
+			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
+
+			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
+			blr.Reset()
 			if err != nil {
 				yield(nil, err)
 				return
 			}
-			if len(data) <= maxLimit {
-				yield(data, nil)
+
+			data := make([]T, 0, r.stmt.Limit+1)
+			for rows.Next() {
+				var v T
+				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
+					rows.Close()
+					yield(nil, err)
+					return
+				}
+				data = append(data, v)
+			}
+			rows.Close()
+
+			noOfRecord := len(data)
+			if uint16(noOfRecord) <= maxLimit {
+				if !yield(data, nil) {
+					return
+				}
 				return
 			}
-			next := data[maxLimit] // Set next cursor
-			from = &next
-			if !yield(data[:maxLimit:maxLimit], nil) {
+
+			if !yield(data[:noOfRecord-1], nil) {
 				return
 			}
+
+			v = data[noOfRecord-1] // Set next cursor
+			data = nil             // Reset result
+			hasCursor = true
 		}
 	}
 }
 
-// fetch returns the records of a page, the first one is the cursor.
-func (r *Pager[T, Ptr]) fetch(ctx context.Context, db *sql.DB, forward bool, cursor Ptr, limit int) ([]T, error) {
-	var (
-		v       T
-		keys    []string
-		values  []any
-		orderBy = slices.Clone(r.stmt.OrderBy)
-		asc     = len(orderBy) == 0 || orderBy[len(orderBy)-1].Asc()
-	)
-	if cursor != nil {
-		v = *cursor
-	}
-	switch vi := any(v).(type) {
-	case sequel.CompositeKeyer:
-		keys, _, values = vi.CompositeKey()
-	case sequel.PrimaryKeyer:
-		name, _, value := vi.PK()
-		keys, values = []string{name}, []any{value}
-	default:
-		panic("unreachable")
-	}
-	// The key is the tie-breaker
-	for i := range keys {
-		orderBy = append(orderBy, sequel.OrderByColumn(keys[i], asc))
-	}
-
-	blr := AcquireStmt()
-	defer ReleaseStmt(blr)
-	blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v))
-	if r.stmt.Where != nil {
-		blr.WriteString(" WHERE (")
-		r.stmt.Where(blr)
-		blr.WriteByte(')')
-	}
-	if cursor != nil {
-		if r.stmt.Where != nil {
-			blr.WriteString(" AND ")
-		} else {
-			blr.WriteString(" WHERE ")
+func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return func(yield func([]T, error) bool) {
+		var (
+			v         T
+			hasCursor bool
+			maxLimit  = r.stmt.Limit
+		)
+		if len(cursor) > 0 {
+			v = cursor[0]
+			hasCursor = true
 		}
-		// Compare the columns with those of the cursor, in priority order
-		for i := range orderBy {
-			name, op := orderBy[i].ColumnName(), " < "
-			asc := orderBy[i].Asc() == forward
-			if asc {
-				op = " > "
-			}
-			if n := i - len(r.stmt.OrderBy); n >= 0 {
-				if n == len(keys)-1 {
-					// The cursor itself is included
-					blr.WriteString(name + op[:2] + "= " + blr.Var(values[n]))
-				} else {
-					blr.WriteString("(" + name + op + blr.Var(values[n]) + " OR (" + name + " = " + blr.Var(values[n]) + " AND ")
+		blr := AcquireStmt()
+		defer ReleaseStmt(blr)
+
+		for {
+			if hasCursor {
+				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
+					yield(nil, err)
+					return
 				}
-				continue
 			}
-			value := func() string {
-				str := "(SELECT " + name + " FROM " + DbTable(v) + " WHERE "
-				for j := range keys {
-					if j > 0 {
-						str += " AND "
+
+			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
+			if r.stmt.Where != nil {
+				r.stmt.Where(blr)
+			}
+
+			if len(r.stmt.OrderBy) > 0 {
+				colDict := make(map[string]int)
+				columns := v.Columns()
+				values := v.Values()
+				for i := range columns {
+					colDict[columns[i]] = i
+				}
+
+				for i, orderBy := range r.stmt.OrderBy {
+					colName := orderBy.ColumnName()
+					val := values[colDict[colName]]
+					if i > 0 {
+						blr.WriteString(" AND ")
+					}
+					if orderBy.Asc() {
+						// If ascending
+						blr.WriteString(colName + " >= " + blr.Var(val))
+					} else {
+						// If descending
+						blr.WriteString(colName + " <= " + blr.Var(val))
+					}
+				}
+				blr.WriteString(" AND (")
+				for i, orderBy := range r.stmt.OrderBy {
+					colName := orderBy.ColumnName()
+					val := values[colDict[colName]]
+					if i > 0 {
+						blr.WriteString(" OR ")
+					}
+					if orderBy.Asc() {
+						// If ascending
+						blr.WriteString(colName + " > " + blr.Var(val))
+					} else {
+						// If descending
+						blr.WriteString(colName + " < " + blr.Var(val))
 					}
-					str += keys[j] + " = " + blr.Var(values[j])
 				}
-				return str + ")"
+				clear(colDict)
+				blr.WriteString(" OR ")
 			}
-			blr.WriteString("(" + name + op + value())
-			nullsLast := !asc
-			if nullsLast {
-				blr.WriteString(" OR (" + name + " IS NULL AND " + value() + " IS NOT NULL)")
-			} else {
-				blr.WriteString(" OR (" + name + " IS NOT NULL AND " + value() + " IS NULL)")
+
+			if hasCursor {
+				// Check the primary key and compare value
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, vals := vi.CompositeKey()
+					blr.WriteString("((" + strings.Join(pkNames, ",") + ") >= " + blr.Vars(vals) + ")")
+				case sequel.PrimaryKeyer:
+					pkName, _, val := vi.PK()
+					blr.WriteString("(" + pkName + " >= " + blr.Var(val) + ")")
+				default:
+					panic("unreachable")
+				}
 			}
-			blr.WriteString(" OR ((" + name + " = " + value() + " OR (" + name + " IS NULL AND " + value() + " IS NULL)) AND ")
-		}
-		blr.WriteString(strings.Repeat("))", len(orderBy)-1))
-	}
-	for i := range orderBy {
-		if i > 0 {
-			blr.WriteByte(',')
-		} else {
+
 			blr.WriteString(" ORDER BY ")
-		}
-		if orderBy[i].Asc() == forward {
-			blr.WriteString(orderBy[i].ColumnName() + " ASC")
-		} else {
-			blr.WriteString(orderBy[i].ColumnName() + " DESC")
-		}
-	}
-	blr.WriteString(" LIMIT " + strconv.Itoa(limit) + ";")
+			if len(r.stmt.OrderBy) > 0 {
+				for i := range r.stmt.OrderBy {
+					if r.stmt.OrderBy[i].Asc() {
+						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
+					} else {
+						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
+					}
+				}
+				var (
+					suffix  = " ASC"
+					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
+				)
+				if !lastCol.Asc() {
+					suffix = " DESC"
+				}
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, _ := vi.CompositeKey()
+					blr.WriteString("(" + strings.Join(pkNames, ",") + ")" + suffix)
+				case sequel.PrimaryKeyer:
+					pkName, _, _ := vi.PK()
+					blr.WriteString(pkName + suffix)
+				default:
+					panic("unreachable")
+				}
+			} else {
+				// If there is no order by clause,
+				// ascending is the default order
+				switch vi := any(v).(type) {
+				case sequel.CompositeKeyer:
+					pkNames, _, _ := vi.CompositeKey()
+					blr.WriteString("(" + strings.Join(pkNames, ",") + ") ASC")
+				case sequel.PrimaryKeyer:
+					pkName, _, _ := vi.PK()
+					blr.WriteString(pkName)
+				default:
+					panic("unreachable")
+				}
+			}
+			// Add one to limit to find next cursor
+			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
 
-	rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
-	if err != nil {
-		return nil, err
-	}
-	defer rows.Close()
+			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
+			blr.Reset()
+			if err != nil {
+				yield(nil, err)
+				return
+			}
 
-	data := []T{}
-	for rows.Next() {
-		var v T
-		if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
-			return nil, err
+			data := make([]T, 0, r.stmt.Limit+1)
+			for rows.Next() {
+				var v T
+				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
+					rows.Close()
+					yield(nil, err)
+					return
+				}
+				data = append(data, v)
+			}
+			rows.Close()
+
+			noOfRecord := len(data)
+			if uint16(noOfRecord) <= maxLimit {
+				if !yield(data, nil) {
+					return
+				}
+				return
+			}
+
+			if !yield(data[:noOfRecord-1], nil) {
+				return
+			}
+
+			v = data[noOfRecord-1] // Set next cursor
+			data = nil             // Reset result
+			hasCursor = true
 		}
-		data = append(data, v)
 	}
-	if err := rows.Err(); err != nil {
-		return nil, err
-	}
-	return data, rows.Close()
 }
 
 type SelectStmt struct {
@@ -625,9 +781,6 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 	}
 	if stmt.Limit > 0 {
 		blr.WriteString(" LIMIT " + strconv.Itoa((int)(stmt.Limit)))
-	} else if stmt.Offset > 0 {
-		// An offset is only allowed after a limit
-		blr.WriteString(" LIMIT 9223372036854775807")
 	}
 	if stmt.Offset > 0 {
 		blr.WriteString(" OFFSET " + strconv.FormatUint(stmt.Offset, 10))
@@ -648,9 +801,6 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 		}
 		result = append(result, v)
 	}
-	if err := rows.Err(); err != nil {
-		return nil, err
-	}
 	if err := rows.Close(); err != nil {
 		return nil, err
 	}
@@ -687,7 +837,6 @@ func QueryOneStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.
 		case sequel.Tabler:
 			blr.WriteString(" FROM " + DbTable(vj))
 		default:
-			ReleaseStmt(blr)
 			return nil, fmt.Errorf("missing table name for model %T", v)
 		}
 	}
@@ -749,7 +898,7 @@ func ExecStmt[T any, Stmt interface {
 
 	switch vi := any(stmt).(type) {
 	case UpdateStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok && vi.Table == "" {
+		if vt, ok := any(v).(sequel.Tabler); ok {
 			blr.WriteString("UPDATE " + DbTable(vt))
 		} else {
 			blr.WriteString("UPDATE " + dbName(v) + vi.Table)
@@ -784,7 +933,7 @@ func ExecStmt[T any, Stmt interface {
 			blr.WriteString(" LIMIT " + strconv.Itoa((int)(vi.Limit)))
 		}
 	case DeleteStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok && vi.FromTable == "" {
+		if vt, ok := any(v).(sequel.Tabler); ok {
 			blr.WriteString("DELETE FROM " + DbTable(vt))
 		} else {
 			blr.WriteString("DELETE FROM " + dbName(v) + vi.FromTable)
@@ -853,7 +1002,7 @@ func (s *SqlStmt) Var(value any) string {
 func (s *SqlStmt) Vars(values []any) string {
 	noOfLen := len(values)
 	s.args = append(s.args, values...)
-	return "(" + strings.TrimPrefix(strings.Repeat(",?", noOfLen), ",") + ")"
+	return "(" + strings.Repeat(",?", noOfLen)[1:] + ")"
 }
 
 func (s *SqlStmt) Write(p []byte) (int, error) {
@@ -890,29 +1039,27 @@ func (s *SqlStmt) Format(f fmt.State, verb rune) {
 	}
 
 	var (
-		buf = make([]byte, 0, len(str)*2)
-		pos int
+		args = make([]any, len(s.args))
+		idx  int
+		i    = 1
 	)
-	for i := 0; i < len(str); {
-		if n := skipText(str[i:]); n > 0 {
-			buf = append(buf, str[i:i+n]...)
-			i += n
-			continue
-		}
-		n := 0
-		if strings.HasPrefix(str[i:], `?`) {
-			pos++
-			n = len(`?`)
-		}
-		if n > 0 && pos > 0 && pos <= len(s.args) {
-			buf = append(buf, strf(s.args[pos-1])...)
-		} else {
-			n = max(n, 1)
-			buf = append(buf, str[i:i+n]...)
+
+	copy(args, s.args)
+
+	for {
+		idx = strings.Index(str, "?")
+		if idx < 0 {
+			f.Write(unsafe.Slice(unsafe.StringData(str), len(str)))
+			break
 		}
-		i += n
+
+		f.Write([]byte(str[:idx]))
+		v := strf(args[0])
+		f.Write(unsafe.Slice(unsafe.StringData(v), len(v)))
+		str = str[idx+1:]
+		args = args[1:]
+		i++
 	}
-	f.Write(buf)
 }
 
 func (s *SqlStmt) Reset() {
@@ -935,53 +1082,6 @@ func TableColumns[T sequel.Columner](model T) []string {
 	return model.Columns()
 }
 
-// insertColumns returns the columns to insert, without the auto increment key
-// and the columns which are readonly.
-func insertColumns[T sequel.Columner](model T) []string {
-	if v, ok := any(model).(sequel.InsertColumner); ok {
-		return v.InsertColumns()
-	}
-	columns := model.Columns()
-	if v, ok := any(model).(sequel.AutoIncrKeyer); ok {
-		_, idx, _ := v.PK()
-		return slices.Delete(slices.Clone(columns), idx, idx+1)
-	}
-	return columns
-}
-
-// insertValues returns the values of the columns from insertColumns.
-func insertValues[T sequel.Valuer](model T) []any {
-	values := model.Values()
-	if _, ok := any(model).(sequel.InsertColumner); ok {
-		return values
-	}
-	if v, ok := any(model).(sequel.AutoIncrKeyer); ok {
-		_, idx, _ := v.PK()
-		return slices.Delete(slices.Clone(values), idx, idx+1)
-	}
-	return values
-}
-
-// updateColumns returns the columns to update, without the keys, and their values.
-func updateColumns[T sequel.ColumnValuer](model T, keys ...string) ([]string, []any) {
-	columns, values := insertColumns(model), insertValues(model)
-	cols, args := make([]string, 0, len(columns)), make([]any, 0, len(columns)+len(keys))
-	for i := range columns {
-		if !slices.Contains(keys, columns[i]) {
-			cols = append(cols, columns[i])
-			args = append(args, values[i])
-		}
-	}
-	return cols, args
-}
-
-// hasUpdate tells whether any of the columns is not omitted.
-func hasUpdate(columns, omitted []string) bool {
-	return slices.ContainsFunc(columns, func(column string) bool {
-		return !slices.Contains(omitted, column)
-	})
-}
-
 func dbName(model any) string {
 	if v, ok := model.(sequel.Databaser); ok {
 		return v.DatabaseName() + "."
@@ -989,104 +1089,42 @@ func dbName(model any) string {
 	return ""
 }
 
-// skipText returns the length of the string literal, quoted identifier or
-// comment that s starts with, or zero. There are no placeholders in these.
-func skipText(s string) int {
-	switch {
-	case strings.HasPrefix(s, "--"):
-		if i := strings.IndexByte(s, '\n'); i >= 0 {
-			return i
-		}
-		return len(s)
-	case strings.HasPrefix(s, "/*"):
-		if i := strings.Index(s[2:], "*/"); i >= 0 {
-			return i + 4
-		}
-		return len(s)
-	}
-	i, escape := 1, false
-	end := s[i-1]
-	if end != '\'' && end != '"' && end != '`' {
-		return 0
-	}
-	for ; i < len(s); i++ {
-		if s[i] == end {
-			return i + 1
-		}
-		if escape && end != '`' && s[i] == '\\' {
-			i++
-		}
-	}
-	return len(s)
-}
-
-// quote returns the string literal of s.
-func quote(s string) string {
-	return "'" + strings.ReplaceAll(s, "'", "''") + "'"
-}
-
-func formatFloat(f float64) string {
-	if math.IsNaN(f) || math.IsInf(f, 0) {
-		return quote(strconv.FormatFloat(f, 'g', -1, 64))
-	}
-	return strconv.FormatFloat(f, 'g', -1, 64)
-}
-
-// strf returns the literal of the value.
 func strf(v any) string {
 	switch vi := v.(type) {
 	case nil:
 		return "NULL"
 	case string:
-		return quote(vi)
+		return strconv.Quote(vi)
 	case []byte:
-		if vi == nil {
-			return "NULL"
-		}
-		return quote(string(vi))
+		return strconv.Quote(unsafe.String(unsafe.SliceData(vi), len(vi)))
 	case bool:
 		return strconv.FormatBool(vi)
 	case int64:
 		return strconv.FormatInt(vi, 10)
 	case float64:
-		return formatFloat(vi)
+		return strconv.FormatFloat(vi, 'f', 10, 64)
 	case time.Time:
-		return quote(vi.Format(time.RFC3339Nano))
+		return strconv.Quote(vi.Format(time.RFC3339))
+	case sql.RawBytes:
+		return unsafe.String(unsafe.SliceData(vi), len(vi))
 	case driver.Valuer:
-		rv := reflect.ValueOf(v)
-		if rv.Kind() == reflect.Pointer && rv.IsNil() && rv.Type().Elem().Implements(reflect.TypeFor[driver.Valuer]()) {
-			return "NULL"
-		}
-		val, err := vi.Value()
-		if err != nil {
-			return quote(err.Error())
-		}
-		if _, ok := val.(driver.Valuer); ok {
-			return quote(fmt.Sprint(val))
-		}
+		val, _ := vi.Value()
 		return strf(val)
-	}
-	vt := reflect.ValueOf(v)
-	switch vt.Kind() {
-	case reflect.String:
-		return quote(vt.String())
-	case reflect.Bool:
-		return strconv.FormatBool(vt.Bool())
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-		return strconv.FormatInt(vt.Int(), 10)
-	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return strconv.FormatUint(vt.Uint(), 10)
-	case reflect.Float32, reflect.Float64:
-		return formatFloat(vt.Float())
-	case reflect.Pointer:
-		if vt.IsNil() {
-			return "NULL"
-		}
-		return strf(vt.Elem().Interface())
-	case reflect.Slice:
-		if vt.Type().Elem().Kind() == reflect.Uint8 {
-			return strf(vt.Bytes())
+	default:
+		vt := reflect.ValueOf(v)
+		switch vt.Kind() {
+		case reflect.String:
+			return strconv.Quote(vt.String())
+		case reflect.Bool:
+			return strconv.FormatBool(vt.Bool())
+		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+			return strconv.FormatInt(vt.Int(), 10)
+		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+			return strconv.FormatUint(vt.Uint(), 10)
+		case reflect.Float32, reflect.Float64:
+			return strconv.FormatFloat(vt.Float(), 'f', 10, 64)
+		default:
+			panic("unreachable")
 		}
 	}
-	return quote(fmt.Sprint(v))
 }
diff --git a/examples/db/sqlite/operator.go b/examples/db/sqlite/operator.go
index f585a19..0026ac0 100755
--- a/examples/db/sqlite/operator.go
+++ b/examples/db/sqlite/operator.go
@@ -62,10 +62,6 @@ func NotEqual[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 
 func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
-		if len(values) == 0 {
-			w.WriteString("1 = 0")
-			return
-		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
@@ -87,10 +83,6 @@ func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 
 func NotIn[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
-		if len(values) == 0 {
-			w.WriteString("1 = 1")
-			return
-		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
diff --git a/examples/testcase/struct/embedded/imported/generated.go b/examples/testcase/struct/embedded/imported/generated.go
index 1a4612a..7f5b0c6 100755
--- a/examples/testcase/struct/embedded/imported/generated.go
+++ b/examples/testcase/struct/embedded/imported/generated.go
@@ -1,3 +1,50 @@
 // Code generated by sqlgen, version v1.0.0-beta.1; DO NOT EDIT.
 
 package embedded
+
+import (
+	"cloud.google.com/go/civil"
+	"github.com/si3nloong/sqlgen/sequel"
+	"github.com/si3nloong/sqlgen/sequel/encoding"
+)
+
+func (B) TableName() string {
+	return "b"
+}
+func (B) Columns() []string {
+	return []string{"date", "time"} // 2
+}
+func (v B) Values() []any {
+	return []any{
+		encoding.TextValue(v.DateTime.Date), // 0 - date
+		encoding.TextValue(v.DateTime.Time), // 1 - time
+	}
+}
+func (v *B) Addrs() []any {
+	return []any{
+		encoding.TextScanner[civil.Date](&v.DateTime.Date), // 0 - date
+		encoding.TextScanner[civil.Time](&v.DateTime.Time), // 1 - time
+	}
+}
+func (B) InsertPlaceholders(row int) string {
+	return "(?,?)" // 2
+}
+func (v B) InsertOneStmt() (string, []any) {
+	return "INSERT INTO `b` (`date`,`time`) VALUES (?,?);", v.Values()
+}
+func (v B) DateValue() any {
+	return encoding.TextValue(v.DateTime.Date)
+}
+func (v B) TimeValue() any {
+	return encoding.TextValue(v.DateTime.Time)
+}
+func (v B) ColumnDate() sequel.ColumnConvertClause[civil.Date] {
+	return sequel.Column("date", v.DateTime.Date, func(val civil.Date) any {
+		return encoding.TextValue(val)
+	})
+}
+func (v B) ColumnTime() sequel.ColumnConvertClause[civil.Time] {
+	return sequel.Column("time", v.DateTime.Time, func(val civil.Time) any {
+		return encoding.TextValue(val)
+	})
+}
-- 
2.43.0


From 53aa365657249b1aa7b471a7dd614640fd9dcb38 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 23:19:27 +0000
Subject: [PATCH 45/58] fix: sources name exactly their files, and a failing
 run keeps the outputs of the last one

Sources outside of the current directory, wildcards in directories with
one letter, uppercase or special characters, several sources for one
directory and anchored patterns are resolved; outputs are replaced only
when the new content is complete, and files which are no output are not
unlinked.
---
 cmd/sqlgen/codegen/codegen.go            | 281 ++++++++++-------------
 cmd/sqlgen/codegen/generate.go           |  11 +-
 cmd/sqlgen/codegen/init.go               |   3 +-
 cmd/sqlgen/codegen/path_matcher.go       |  24 +-
 cmd/sqlgen/internal/compiler/parser.go   |  13 +-
 cmd/sqlgen/internal/fileutil/fileutil.go |  15 ++
 6 files changed, 176 insertions(+), 171 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 7ca3d3a..dcc10e1 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -27,13 +27,6 @@ var (
 	//go:embed templates/*.go.tpl
 	codegenTemplates embed.FS
 
-	// https://pkg.go.dev/cmd/go#hdr-Generate_Go_files_by_processing_source
-	path2Regex = strings.NewReplacer(
-		`.`, `\.`,
-		`*`, `.*`,
-		`\`, `[\\/]`,
-		`/`, `[\\/]`,
-	)
 	nameRegex = regexp.MustCompile(`(?i)^[a-z]+[a-z0-9\_]*$`)
 	go121     = lo.Must1(semver.NewConstraint(">= 1.2.1"))
 	// goTagRegexp   = regexp.MustCompile(`(?i)^([a-z][a-z_]*[a-z])(\:(\w+))?$`)
@@ -61,104 +54,33 @@ func Generate(c *Config) error {
 		return err
 	}
 
+	// Resolve every source provided
 	var (
-		srcDir  string
-		sources = make([]string, 0, len(cfg.Source))
+		dirs     []string
+		matchers = make(map[string]Matchers)
 	)
-	sources = append(sources, cfg.Source...)
-
-	// Resolve every source provided
-	for len(sources) > 0 {
-		srcDir = strings.TrimSpace(sources[0])
-		if srcDir == "" {
-			return fmt.Errorf("sqlgen: source directory %q is empty path", srcDir)
-		}
-
-		if srcDir == "." {
-			srcDir = fileutil.Getpwd()
-			// If the prefix is ".", mean it's refer to current directory
-		} else if srcDir[0] == '.' {
-			srcDir = fileutil.Getpwd() + srcDir[1:]
-		} else if srcDir[0] != '/' {
-			srcDir = filepath.Join(fileutil.Getpwd(), srcDir)
-		}
-
-		// If suffix is *, we will add go extension to it
-		if srcDir[len(srcDir)-1] == '*' {
-			srcDir = srcDir + ".go"
+	for _, src := range cfg.Source {
+		srcDirs, matcher, err := resolveSource(src)
+		if err != nil {
+			return err
 		}
-
-		slog.Info("Processing", "dir", srcDir)
-
-		// File: examples/testdata/test.go
-		// Folder: examples/testdata
-		// Wildcard: [examples/**, examples/testdata/**/*.go,  examples/testdata/**/*]
-		// File wildcard: [examples/testdata/*model.go, examples/testdata/*_model.go]
-		var (
-			rootDir    string
-			r                  = regexp.MustCompile(`(?i)((?:\/)([a-z][a-z0-9-_.]+\/)*)\w*\*\w*(?:\.go)`)
-			subMatches         = r.FindStringSubmatch(srcDir)
-			matcher    Matcher = new(EmptyMatcher)
-			dirs               = make([]string, 0)
-		)
-
-		if strings.Contains(srcDir, "**") {
-			paths := strings.SplitN(srcDir, "**", 2)
-			rootDir = strings.TrimSuffix(strings.TrimSpace(paths[0]), "/")
-			suffix := `(?:[\\/]\w+\.\w+)`
-			if paths[1] != "" {
-				suffix = path2Regex.Replace(paths[1])
-			}
-			if err := filepath.WalkDir(rootDir, func(path string, d fs.DirEntry, err error) error {
-				// If the directory is not exists, the "d" will be nil
-				if d == nil || !d.IsDir() {
-					// If it's not a folder, we skip!
-					return nil
-				}
-				dirs = append(dirs, strings.TrimPrefix(path, rootDir))
-				return nil
-			}); err != nil {
-				return fmt.Errorf(`sqlgen: failed to walk schema %s: %w`, paths[0], err)
-			}
-			matcher = &RegexMatcher{regexp.MustCompile(path2Regex.Replace(rootDir) + `([\\/][a-z0-9_-]+)*` + suffix)}
-		} else if len(subMatches) > 0 {
-			rootDir = strings.TrimSuffix(subMatches[1], "/")
-			dirs = append(dirs, "")
-			slog.Info("Submatch", "rootDir", rootDir, "dir", path2Regex.Replace(srcDir))
-			matcher = &RegexMatcher{regexp.MustCompile(path2Regex.Replace(srcDir))}
-		} else {
-			fi, err := os.Stat(srcDir)
-			// If the file or folder not exists, we skip!
-			if os.IsNotExist(err) {
-				goto nextSrc
-			} else if err != nil {
-				return err
-			}
-
-			if fi.IsDir() {
-				// If it's just a folder
-				matcher = FolderMatcher(srcDir)
-			} else {
-				// If it's just a file
-				srcDir = filepath.Dir(srcDir)
-				matcher = FileMatcher{filepath.Join(srcDir, fi.Name()): struct{}{}}
+		// A directory can be named by more than one source
+		for _, dir := range srcDirs {
+			if _, ok := matchers[dir]; !ok {
+				dirs = append(dirs, dir)
 			}
-
-			rootDir = srcDir
-			dirs = append(dirs, "")
+			matchers[dir] = append(matchers[dir], matcher)
 		}
+	}
 
-		if err := parseGoPackage(generator, rootDir, dirs, matcher); err != nil {
+	for _, dir := range dirs {
+		if err := parseGoPackage(generator, dir, matchers[dir]); err != nil {
 			return err
 		}
-
-	nextSrc:
-		sources = sources[1:]
 	}
 
 	if cfg.Database != nil {
 		// Generate db code
-		_ = syscall.Unlink(filepath.Join(cfg.Database.Dir, cfg.Database.Filename))
 		if err := renderTemplate(
 			generator,
 			"db.go.tpl",
@@ -172,7 +94,6 @@ func Generate(c *Config) error {
 	}
 
 	if cfg.Database.Operator != nil {
-		_ = syscall.Unlink(filepath.Join(cfg.Database.Dir, cfg.Database.Operator.Filename))
 		if err := renderTemplate(
 			generator,
 			"operator.go.tpl",
@@ -191,80 +112,126 @@ func Generate(c *Config) error {
 	return goModTidy()
 }
 
-func parseGoPackage(
-	g *Generator,
-	rootDir string,
-	dirs []string,
-	matcher Matcher,
-) error {
-	var dir string
-	var filename string
-	rename := g.config.RenameFunc()
-
-	for len(dirs) > 0 {
-		dir = path.Join(rootDir, dirs[0])
-
-		// Sometimes user might place db destination in the source as well
-		// In this situation, we're not process the folder, we will skip it
-		// if the file is exists in db folder
-		pwd := fileutil.Getpwd()
-		if idx := lo.IndexOf([]string{
-			path.Join(pwd, g.config.Database.Dir),
-			path.Join(pwd, g.config.Database.Operator.Dir),
-		}, dir); idx >= 0 {
-			dirs = dirs[1:]
-			continue
-		}
-
-		slog.Info("Process", "dir", dir)
-		if fileutil.IsDirEmptyFiles(dir, g.config.Exec.Filename) {
-			slog.Info("Folder is empty, so not processing")
-			dirs = dirs[1:]
-			continue
-		}
+// Returns the directories that hold the files named by the source, and the matcher of those files.
+//
+//	File: examples/testdata/test.go
+//	Folder: examples/testdata
+//	Wildcard: [examples/**, examples/testdata/**/*.go,  examples/testdata/**/*]
+//	File wildcard: [examples/testdata/*model.go, examples/testdata/*_model.go]
+func resolveSource(src string) ([]string, Matcher, error) {
+	path := strings.TrimSpace(src)
+	if path == "" {
+		return nil, nil, fmt.Errorf("sqlgen: source directory %q is empty path", path)
+	}
+	// A relative path refers to the current directory
+	if filepath.IsAbs(path) {
+		path = filepath.Clean(path)
+	} else {
+		path = filepath.Join(fileutil.Getpwd(), path)
+	}
 
-		filename = path.Join(dir, g.config.Exec.Filename)
-		// Unlink the generated file, ignore the error
-		_ = syscall.Unlink(filename)
+	slog.Info("Processing", "dir", path)
 
-		slog.Info("Parse go package", "dir", dir)
-		// Since we're loading one directory at a time,
-		// the return results will only return one package back
-		schema, err := compiler.Parse(dir, &compiler.Config{
-			Tag:        g.config.Tag,
-			RenameFunc: rename,
-			Matcher:    matcher,
-		})
-		if errors.Is(err, compiler.ErrSkip) {
-			goto nextDir
+	if !strings.Contains(path, "*") {
+		fi, err := os.Stat(path)
+		// If the file or folder not exists, we skip!
+		if os.IsNotExist(err) {
+			return nil, new(EmptyMatcher), nil
 		} else if err != nil {
-			return err
+			return nil, nil, err
 		}
-
-		if err := g.generateModels(dir, schema); err != nil {
-			return err
+		if fi.IsDir() {
+			// If it's just a folder
+			return []string{path}, FolderMatcher(path), nil
 		}
+		// If it's just a file
+		return []string{filepath.Dir(path)}, FileMatcher{path: struct{}{}}, nil
+	}
+
+	if strings.HasSuffix(path, "/**") {
+		path += "/*"
+	}
+	// If suffix is *, we will add go extension to it
+	if strings.HasSuffix(path, "*") {
+		path += ".go"
+	}
+	matcher := &RegexMatcher{path2Regex(path)}
+
+	rootDir := filepath.Dir(path)
+	if !strings.Contains(rootDir, "*") {
+		return []string{rootDir}, matcher, nil
+	}
 
-		// If the `skip_empty` is true,
-		// we do not generate the go file
-		if g.config.Exec.SkipEmpty {
-			goto nextDir
+	dirs := make([]string, 0)
+	rootDir = filepath.Dir(rootDir[:strings.Index(rootDir, "*")] + "_")
+	if err := filepath.WalkDir(rootDir, func(path string, d fs.DirEntry, err error) error {
+		// If the directory is not exists, the "d" will be nil
+		if d != nil && d.IsDir() {
+			dirs = append(dirs, path)
 		}
+		return nil
+	}); err != nil {
+		return nil, nil, fmt.Errorf(`sqlgen: failed to walk schema %s: %w`, rootDir, err)
+	}
+	return dirs, matcher, nil
+}
 
-		// if g.config.Migration != nil {
-		// 	if err := os.MkdirAll(g.config.Migration.Dir, os.ModePerm); err != nil {
-		// 		return err
-		// 	}
+func parseGoPackage(
+	g *Generator,
+	dir string,
+	matcher Matcher,
+) error {
+	// Sometimes user might place db destination in the source as well
+	// In this situation, we're not process the folder, we will skip it
+	// if the file is exists in db folder
+	pwd := fileutil.Getpwd()
+	if lo.Contains([]string{
+		path.Join(pwd, g.config.Database.Dir),
+		path.Join(pwd, g.config.Database.Operator.Dir),
+	}, dir) {
+		return nil
+	}
 
-		// 	if err := g.genMigrations(schema); err != nil {
-		// 		return err
-		// 	}
-		// }
+	slog.Info("Process", "dir", dir)
+	if !hasMatchedFile(dir, matcher, g.config.Exec.Filename) {
+		slog.Info("Folder has no matched file, so not processing")
+		return nil
+	}
 
-	nextDir:
-		dirs = dirs[1:]
+	slog.Info("Parse go package", "dir", dir)
+	filename := filepath.Join(dir, g.config.Exec.Filename)
+	// Since we're loading one directory at a time,
+	// the return results will only return one package back
+	schema, err := compiler.Parse(dir, &compiler.Config{
+		Tag:        g.config.Tag,
+		RenameFunc: g.config.RenameFunc(),
+		Matcher:    matcher,
+		Exclude:    filename,
+	})
+	if errors.Is(err, compiler.ErrSkip) {
+		// Nothing to generate anymore, ignore the error if there is no generated file
+		_ = syscall.Unlink(filename)
+		return nil
+	} else if err != nil {
+		return err
+	}
+
+	return g.generateModels(dir, schema)
+}
+
+// Whether the folder has any go file which match, other than the generated file
+func hasMatchedFile(dir string, matcher Matcher, generated string) bool {
+	entries, err := os.ReadDir(dir)
+	if err != nil {
+		return false
 	}
-	return nil
+	return lo.ContainsBy(entries, func(e os.DirEntry) bool {
+		return !e.IsDir() &&
+			e.Name() != generated &&
+			filepath.Ext(e.Name()) == ".go" &&
+			!strings.HasSuffix(e.Name(), "_test.go") &&
+			matcher.Match(filepath.Join(dir, e.Name()))
+	})
 }
 
 func goModTidy() error {
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 1adcba2..b58b3bb 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -18,6 +18,7 @@ import (
 	"github.com/si3nloong/sqlgen"
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect"
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/compiler"
+	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/fileutil"
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/goutil"
 	"github.com/si3nloong/sqlgen/sequel/encoding"
 	"github.com/si3nloong/sqlgen/sequel/strpool"
@@ -337,12 +338,6 @@ func (g *Generator) generateModels(
 		return err
 	}
 	fileDest := filepath.Join(dstDir, g.config.Exec.Filename)
-	f, err := os.OpenFile(fileDest, os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.ModePerm)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
-
 	rw := bytes.NewBufferString(``)
 	g.buildHeader(rw)
 	fprintfln(rw, "package %s", schema.Pkg.Name)
@@ -368,9 +363,7 @@ func (g *Generator) generateModels(
 		return err
 	}
 
-	mustNoError(f.Write(formatted))
-
-	return f.Close()
+	return fileutil.WriteFile(fileDest, formatted)
 }
 
 func (g *Generator) buildHeader(w io.Writer) {
diff --git a/cmd/sqlgen/codegen/init.go b/cmd/sqlgen/codegen/init.go
index 4ddb7aa..58bb7a0 100644
--- a/cmd/sqlgen/codegen/init.go
+++ b/cmd/sqlgen/codegen/init.go
@@ -12,6 +12,7 @@ import (
 	"text/template"
 
 	"github.com/goccy/go-yaml"
+	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/fileutil"
 	"golang.org/x/tools/imports"
 )
 
@@ -112,7 +113,7 @@ func renderTemplate(
 	}
 
 	slog.Info("Creating " + fileDest)
-	if err := os.WriteFile(fileDest, formatted, os.ModePerm); err != nil {
+	if err := fileutil.WriteFile(fileDest, formatted); err != nil {
 		return err
 	}
 	return nil
diff --git a/cmd/sqlgen/codegen/path_matcher.go b/cmd/sqlgen/codegen/path_matcher.go
index bc5a0d5..4c1bfa0 100644
--- a/cmd/sqlgen/codegen/path_matcher.go
+++ b/cmd/sqlgen/codegen/path_matcher.go
@@ -1,6 +1,7 @@
 package codegen
 
 import (
+	"path/filepath"
 	"regexp"
 	"strings"
 )
@@ -25,7 +26,7 @@ func (f FileMatcher) Match(v string) bool {
 type FolderMatcher string
 
 func (f FolderMatcher) Match(v string) bool {
-	return strings.HasPrefix(v, (string)(f))
+	return filepath.Dir(v) == (string)(f)
 }
 
 type RegexMatcher struct {
@@ -35,3 +36,24 @@ type RegexMatcher struct {
 func (r *RegexMatcher) Match(v string) bool {
 	return r.MatchString(v)
 }
+
+// Match if any of the matchers match
+type Matchers []Matcher
+
+func (m Matchers) Match(v string) bool {
+	for i := range m {
+		if m[i].Match(v) {
+			return true
+		}
+	}
+	return false
+}
+
+// Convert the path with wildcards to regular expression,
+// "**" matches any directories and "*" matches anything inside a directory or file name
+func path2Regex(path string) *regexp.Regexp {
+	str := regexp.QuoteMeta(path)
+	str = strings.ReplaceAll(str, `/\*\*/`, `/(?:[^/]+/)*`)
+	str = strings.ReplaceAll(str, `\*`, `[^/]*`)
+	return regexp.MustCompile(`^` + str + `$`)
+}
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 9eb6028..847a074 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -6,6 +6,7 @@ import (
 	"go/token"
 	"go/types"
 	"log"
+	"os"
 	"reflect"
 	"regexp"
 	"slices"
@@ -28,16 +29,22 @@ type Config struct {
 	Tag        string
 	RenameFunc func(string) string
 	Matcher    Matcher
+	// The generated file, it's not part of the package we inspect
+	Exclude string
 }
 
 var annotationRegexp = regexp.MustCompile(`(?i)\s*\+sql\:(.*)`)
 
 func Parse(dir string, cfg *Config) (*Package, error) {
-	// Load single go package and inspect the structs
-	pkgs, err := packages.Load(&packages.Config{
+	loadCfg := &packages.Config{
 		Dir:  dir,
 		Mode: pkgMode,
-	})
+	}
+	if fi, err := os.Stat(cfg.Exclude); err == nil && fi.Mode().IsRegular() {
+		loadCfg.Overlay = map[string][]byte{cfg.Exclude: []byte("//go:build ignore\n\npackage ignore\n")}
+	}
+	// Load single go package and inspect the structs
+	pkgs, err := packages.Load(loadCfg)
 	if err != nil {
 		return nil, err
 	} else if len(pkgs) == 0 {
diff --git a/cmd/sqlgen/internal/fileutil/fileutil.go b/cmd/sqlgen/internal/fileutil/fileutil.go
index ab0804a..aad2696 100644
--- a/cmd/sqlgen/internal/fileutil/fileutil.go
+++ b/cmd/sqlgen/internal/fileutil/fileutil.go
@@ -42,3 +42,18 @@ func IsDirEmptyFiles(dir string, excluded ...string) bool {
 		return !found
 	}
 }
+
+// WriteFile replaces the file as a whole, the previous
+// content remains if the file can't be written.
+func WriteFile(name string, data []byte) error {
+	tmp := name + ".tmp"
+	if err := os.WriteFile(tmp, data, os.ModePerm); err != nil {
+		_ = os.Remove(tmp)
+		return err
+	}
+	if err := os.Rename(tmp, name); err != nil {
+		_ = os.Remove(tmp)
+		return err
+	}
+	return nil
+}
-- 
2.43.0


From a4f5a4f5c6b6343ca8b647dd48d29226c8dc18f3 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 23:42:17 +0000
Subject: [PATCH 46/58] fix: methods declared by the user are not generated
 again

---
 cmd/sqlgen/codegen/generate.go           | 45 +++++++++++++++++-------
 cmd/sqlgen/internal/compiler/compiler.go | 14 ++++++++
 2 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index b58b3bb..9cfdc8a 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -149,22 +149,30 @@ func (g *Generator) generateModels(
 		}
 
 		if t.HasPK() {
-			fprintfln(w, "func (%s) HasPK() {}", t.GoName)
+			if !t.Declares("HasPK") {
+				fprintfln(w, "func (%s) HasPK() {}", t.GoName)
+			}
 			pk, ok := t.AutoIncrKey()
 			if ok {
-				fprintfln(w, "func (%s) IsAutoIncr() {}", t.GoName)
-				fprintfln(w, `func (v *%s) ScanAutoIncr(val int64) error {
+				if !t.Declares("IsAutoIncr") {
+					fprintfln(w, "func (%s) IsAutoIncr() {}", t.GoName)
+				}
+				if !t.Declares("ScanAutoIncr") {
+					fprintfln(w, `func (v *%s) ScanAutoIncr(val int64) error {
 	v%s = %s(val)
 	return nil
 }`, t.GoName, pk.GoPath, Expr(pk.Type.String()).Format(importPkgs))
+				}
 			} else if len(t.Keys) == 1 {
 				pk = t.Keys[0]
 			}
 			if pk != nil {
-				fprintfln(w, `func (v %s) PK() (string, int, any) {
+				if !t.Declares("PK") {
+					fprintfln(w, `func (v %s) PK() (string, int, any) {
 	return %s, %d, %s
 }`, t.GoName, g.Quote(g.QuoteIdentifier(pk.Name)), pk.Pos, g.getOrValue(importPkgs, "v", pk))
-			} else {
+				}
+			} else if !t.Declares("CompositeKey") {
 				g.buildCompositeKeys(w, importPkgs, t)
 			}
 		}
@@ -213,7 +221,7 @@ func (g *Generator) generateModels(
 			insertColumns := t.InsertColumns()
 			if n := len(insertColumns); n > 0 {
 				// If the insertable columns is not tally with the table columns means the struct has readonly columns
-				if n != len(t.Columns) {
+				if n != len(t.Columns) && !t.Declares("InsertColumns") {
 					fprintfln(w, "func (%s) InsertColumns() []string {", t.GoName)
 					fmt.Fprint(w, "return []string{")
 					fmt.Fprint(w, g.Quote(g.QuoteIdentifier(insertColumns[0].Name)))
@@ -224,7 +232,9 @@ func (g *Generator) generateModels(
 					fprintfln(w, "}")
 				}
 
-				if g.staticVar {
+				if t.Declares("InsertPlaceholders") {
+					// Use the function declared by user
+				} else if g.staticVar {
 					fprintfln(w, `func (%s) InsertPlaceholders(row int) string {
 	return "(%s)" // %d
 }`, t.GoName, strings.Repeat(","+g.dialect.QuoteVar(0), len(insertColumns))[1:], len(insertColumns))
@@ -242,19 +252,26 @@ func (g *Generator) generateModels(
 					fprintfln(w, "}")
 				}
 
-				g.buildInsertOne(w, importPkgs, t)
+				if !t.Declares("InsertOneStmt") {
+					g.buildInsertOne(w, importPkgs, t)
+				}
 			}
 		}
 
 		if t.HasPK() {
-			g.buildFindByPK(w, importPkgs, t)
-			if !t.Readonly && len(t.ColumnsWithoutPK()) > 0 {
+			if !t.Declares("FindOneByPKStmt") {
+				g.buildFindByPK(w, importPkgs, t)
+			}
+			if !t.Readonly && len(t.ColumnsWithoutPK()) > 0 && !t.Declares("UpdateOneByPKStmt") {
 				g.buildUpdateByPK(w, importPkgs, t)
 			}
 		}
 
 		// Build getter
 		for _, f := range t.Columns {
+			if t.Declares(f.GoName + "Value") {
+				continue
+			}
 			fprintfln(w, "func (v %s) %s any {", t.GoName, valueFunc(f))
 			queue := []string{}
 			// Find all the possible pointer paths
@@ -281,6 +298,9 @@ func (g *Generator) generateModels(
 		}
 
 		for _, f := range t.Columns {
+			if t.Declares(g.config.Getter.Prefix + f.GoName) {
+				continue
+			}
 			var typeStr string
 			isBasic := g.isBasicType(f.Type)
 			switch vt := f.Type.(type) {
@@ -573,9 +593,10 @@ func (g *Generator) buildInsertOne(w io.Writer, importPkgs *Package, t *compiler
 	}
 	buf.WriteByte(';')
 	// If the columns and after filter columns is the same
-	// mean it has no auto increment key
+	// mean it has no auto increment key, and the values declared
+	// by user are always used
 	fprintfln(w, `func (v %s) InsertOneStmt() (string, []any) {`, t.GoName)
-	if len(columns) == len(t.Columns) {
+	if len(columns) == len(t.Columns) || t.Declares(methodName(sqlValuer)) {
 		fprintfln(w, `return %s, v.Values()`, query+g.Quote(buf.String()))
 		strpool.ReleaseString(buf)
 	} else {
diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index fbdbcd6..205dc73 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -90,6 +90,20 @@ func (t *Table) InsertColumns() []*Column {
 	})
 }
 
+// Declares tells whether the method is declared by user on the struct itself
+func (t *Table) Declares(method string) bool {
+	named, ok := t.t.(*types.Named)
+	if !ok {
+		return false
+	}
+	for i := 0; i < named.NumMethods(); i++ {
+		if named.Method(i).Name() == method {
+			return true
+		}
+	}
+	return false
+}
+
 func (t *Table) Implements(T *types.Interface) (*types.Func, bool) {
 	return missingMethod(t.t, T)
 }
-- 
2.43.0


From 9956e13068e84153f90b2a9dc685683c050871c5 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 00:04:57 +0000
Subject: [PATCH 47/58] fix: custom type mappings apply to single keys,
 numbered placeholders and basic types, and faulty ones are refused

---
 cmd/sqlgen/codegen/generate.go               | 122 +++++++++++++------
 cmd/sqlgen/codegen/templates/operator.go.tpl |  38 ++++--
 2 files changed, 111 insertions(+), 49 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 9cfdc8a..df9f4b3 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -38,6 +38,9 @@ var goTypes = []string{
 	// "any", "sql.RawBytes", "json.RawMessage"
 }
 
+// placeholderMark stands for a placeholder whose number is not known yet
+const placeholderMark = "\x00"
+
 type Generator struct {
 	config             *Config
 	dialect            dialect.Dialect
@@ -181,7 +184,9 @@ func (g *Generator) generateModels(
 		if method, isWrongType := t.Implements(sqlQueryColumner); isWrongType {
 			g.LogError(fmt.Errorf(`sqlgen: struct %q has function "SQLColumns" but wrong footprint`, t.Name))
 		} else if method != nil && !isWrongType {
-			g.buildSqlColumns(w, t)
+			if err := g.buildSqlColumns(w, t); err != nil {
+				return err
+			}
 		}
 
 		// Build the "Columns" function which return the column names
@@ -242,28 +247,49 @@ func (g *Generator) generateModels(
 					fprintfln(w, "func (%s) InsertPlaceholders(row int) string {", t.GoName)
 					fprintfln(w, "const noOfColumn = %d", len(insertColumns))
 					fmt.Fprint(w, `return "("+`)
-					for i := range insertColumns {
+					for i, f := range insertColumns {
 						if i > 0 {
 							fmt.Fprint(w, `+","+`)
 						}
-						fmt.Fprintf(w, `%q+ strconv.Itoa((row * noOfColumn) + %d)`, string(g.dialect.VarRune()), i+1)
+						valuer, err := g.sqlValueOf(f, placeholderMark)
+						if err != nil {
+							return err
+						}
+						// The number of the placeholder depends on the row
+						number := fmt.Sprintf(`%q+ strconv.Itoa((row * noOfColumn) + %d)`, string(g.dialect.VarRune()), i+1)
+						for j, text := range strings.Split(valuer, placeholderMark) {
+							if j > 0 {
+								fmt.Fprint(w, number)
+							}
+							if text != "" && j > 0 {
+								fmt.Fprint(w, "+"+g.Quote(text))
+							} else if text != "" {
+								fmt.Fprint(w, g.Quote(text)+"+")
+							}
+						}
 					}
 					fmt.Fprint(w, `+")"`)
 					fprintfln(w, "}")
 				}
 
 				if !t.Declares("InsertOneStmt") {
-					g.buildInsertOne(w, importPkgs, t)
+					if err := g.buildInsertOne(w, importPkgs, t); err != nil {
+						return err
+					}
 				}
 			}
 		}
 
 		if t.HasPK() {
 			if !t.Declares("FindOneByPKStmt") {
-				g.buildFindByPK(w, importPkgs, t)
+				if err := g.buildFindByPK(w, importPkgs, t); err != nil {
+					return err
+				}
 			}
 			if !t.Readonly && len(t.ColumnsWithoutPK()) > 0 && !t.Declares("UpdateOneByPKStmt") {
-				g.buildUpdateByPK(w, importPkgs, t)
+				if err := g.buildUpdateByPK(w, importPkgs, t); err != nil {
+					return err
+				}
 			}
 		}
 
@@ -397,7 +423,7 @@ func (g *Generator) buildCompositeKeys(w io.Writer, importPkgs *Package, table *
 		if i > 0 {
 			fmt.Fprint(w, `,`)
 		}
-		fmt.Fprint(w, g.Quote(f.Name))
+		fmt.Fprint(w, g.Quote(g.QuoteIdentifier(f.Name)))
 	}
 	fmt.Fprint(w, `}, []int{`)
 	for i, f := range table.Keys {
@@ -432,14 +458,11 @@ func (g *Generator) buildSqlColumns(w io.Writer, t *compiler.Table) error {
 		t, _ := underlyingType(column.Type)
 		if typeMapper, ok := g.config.DataTypes[t.String()]; ok && typeMapper.SQLScanner != nil {
 			hasSQLScanner = true
-			t := template.Must(template.New("scanner").Parse(*typeMapper.SQLScanner))
-			buf := strpool.AcquireString()
-			if err := t.Execute(buf, g.QuoteIdentifier(column.Name)); err != nil {
-				strpool.ReleaseString(buf)
+			expr, err := formatSQL(*typeMapper.SQLScanner, g.QuoteIdentifier(column.Name))
+			if err != nil {
 				return err
 			}
-			fmt.Fprint(blr, g.Quote(buf.String()))
-			strpool.ReleaseString(buf)
+			fmt.Fprint(blr, g.Quote(expr))
 		} else {
 			fmt.Fprint(blr, g.Quote(g.QuoteIdentifier(column.Name)))
 		}
@@ -507,10 +530,18 @@ func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.
 	}
 	buf.WriteString(" WHERE ")
 	if pk, ok := t.AutoIncrKey(); ok {
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(1))
+		valuer, err := g.sqlValuer(pk, 0)
+		if err != nil {
+			return err
+		}
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + valuer)
 	} else if len(t.Keys) == 1 {
 		pk := t.Keys[0]
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(1))
+		valuer, err := g.sqlValuer(pk, 0)
+		if err != nil {
+			return err
+		}
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + valuer)
 	} else {
 		keyNames := lo.Map(t.Keys, func(v *compiler.Column, _ int) string {
 			return g.MustQuoteIdentifier(v.Name)
@@ -638,11 +669,19 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	}
 	buf.WriteString(" WHERE ")
 	if pk, ok := t.AutoIncrKey(); ok {
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(columns)+1))
+		valuer, err := g.sqlValuer(pk, len(columns))
+		if err != nil {
+			return err
+		}
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + valuer)
 		columns = append(columns, pk)
 	} else if len(t.Keys) == 1 {
 		pk := t.Keys[0]
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(columns)+1))
+		valuer, err := g.sqlValuer(pk, len(columns))
+		if err != nil {
+			return err
+		}
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + valuer)
 		columns = append(columns, pk)
 	} else {
 		keyNames := lo.Map(t.Keys, func(v *compiler.Column, _ int) string {
@@ -687,6 +726,10 @@ func (g *Generator) getOrValue(importPkgs *Package, obj string, f *compiler.Colu
 }
 
 func (g *Generator) isBasicType(t types.Type) bool {
+	// The custom data type has its own conversion
+	if columnType, ok := g.columnTypes[t.String()]; ok && columnType.Valuer != "" {
+		return false
+	}
 	// This is to prevent auto cast if the value is driver.Value
 	switch tv := t.(type) {
 	case *types.Basic:
@@ -724,6 +767,10 @@ func (g *Generator) valuer(importPkgs *Package, goPath string, t types.Type) str
 }
 
 func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) string {
+	ptr, isPtr := pointerType(t)
+	if columnType, ok := g.columnTypes[t.String()]; ok && columnType.Scanner != "" {
+		return Expr(columnType.Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
+	}
 	// This is to prevent auto cast if the value is driver.Value
 	switch tv := t.(type) {
 	case *types.Basic:
@@ -736,10 +783,7 @@ func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) st
 			return goPath
 		}
 	}
-	ptr, isPtr := pointerType(t)
-	if columnType, ok := g.columnTypes[t.String()]; ok && columnType.Scanner != "" {
-		return Expr(columnType.Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
-	} else if isImplemented(ptr, goSqlScanner) {
+	if isImplemented(ptr, goSqlScanner) {
 		if isPtr {
 			return Expr(goutil.GenericFunc(encoding.PtrScanner[sql.NullString], "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 		}
@@ -755,29 +799,35 @@ func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) st
 func (g *Generator) sqlScanner(column *compiler.Column) (string, error) {
 	t, _ := underlyingType(column.Type)
 	if typeMapper, ok := g.config.DataTypes[t.String()]; ok && typeMapper.SQLScanner != nil {
-		t := template.Must(template.New("scanner").Parse(*typeMapper.SQLScanner))
-		buf := strpool.AcquireString()
-		defer strpool.ReleaseString(buf)
-		if err := t.Execute(buf, g.MustQuoteIdentifier(column.Name)); err != nil {
-			return "", err
-		}
-		return buf.String(), nil
+		return formatSQL(*typeMapper.SQLScanner, g.MustQuoteIdentifier(column.Name))
 	}
 	return g.MustQuoteIdentifier(column.Name), nil
 }
 
 func (g *Generator) sqlValuer(column *compiler.Column, idx int) (string, error) {
+	return g.sqlValueOf(column, g.dialect.QuoteVar(idx+1))
+}
+
+// sqlValueOf returns the expression which writes the placeholder to the column
+func (g *Generator) sqlValueOf(column *compiler.Column, placeholder string) (string, error) {
 	t, _ := underlyingType(column.Type)
 	if typeMapper, ok := g.config.DataTypes[t.String()]; ok && typeMapper.SQLValuer != nil {
-		t := template.Must(template.New("valuer").Parse(*typeMapper.SQLValuer))
-		buf := strpool.AcquireString()
-		defer strpool.ReleaseString(buf)
-		if err := t.Execute(buf, g.dialect.QuoteVar(idx+1)); err != nil {
-			return "", err
-		}
-		return buf.String(), nil
+		return formatSQL(*typeMapper.SQLValuer, placeholder)
+	}
+	return placeholder, nil
+}
+
+func formatSQL(expr, value string) (string, error) {
+	t, err := template.New("sql").Parse(expr)
+	if err != nil {
+		return "", fmt.Errorf("sqlgen: invalid SQL expression %q: %w", expr, err)
+	}
+	buf := strpool.AcquireString()
+	defer strpool.ReleaseString(buf)
+	if err := t.Execute(buf, value); err != nil {
+		return "", fmt.Errorf("sqlgen: invalid SQL expression %q: %w", expr, err)
 	}
-	return g.dialect.QuoteVar(idx + 1), nil
+	return buf.String(), nil
 }
 
 func printStruct(w io.Writer, importPkgs *Package, s *types.Struct) {
diff --git a/cmd/sqlgen/codegen/templates/operator.go.tpl b/cmd/sqlgen/codegen/templates/operator.go.tpl
index 415251c..e4566a2 100644
--- a/cmd/sqlgen/codegen/templates/operator.go.tpl
+++ b/cmd/sqlgen/codegen/templates/operator.go.tpl
@@ -32,7 +32,7 @@ func Equal[T comparable](column sequel.ColumnClause[T], value T) sequel.WhereCla
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " = " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " = " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " = " + w.Var(vi.Convert(value)))
 		default:
@@ -45,7 +45,7 @@ func NotEqual[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " <> " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " <> " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " <> " + w.Var(vi.Convert(value)))
 		default:
@@ -63,9 +63,15 @@ func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
+			w.WriteString(vi.ColumnName() + " IN (")
 			for idx := range values {
-				args[idx] = vi.Convert(values[idx])
+				if idx > 0 {
+					w.WriteByte(',')
+				}
+				w.WriteString(vi.SQLColumn(w.Var(vi.Convert(values[idx]))))
 			}
+			w.WriteByte(')')
+			return
 		case sequel.ColumnConvertClause[T]:
 			for idx := range values {
 				args[idx] = vi.Convert(values[idx])
@@ -88,9 +94,15 @@ func NotIn[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
+			w.WriteString(vi.ColumnName() + " NOT IN (")
 			for idx := range values {
-				args[idx] = vi.Convert(values[idx])
+				if idx > 0 {
+					w.WriteByte(',')
+				}
+				w.WriteString(vi.SQLColumn(w.Var(vi.Convert(values[idx]))))
 			}
+			w.WriteByte(')')
+			return
 		case sequel.ColumnConvertClause[T]:
 			for idx := range values {
 				args[idx] = vi.Convert(values[idx])
@@ -108,7 +120,7 @@ func GreaterThan[T comparable](column sequel.ColumnClause[T], value T) sequel.Wh
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " > " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " > " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " > " + w.Var(vi.Convert(value)))
 		default:
@@ -121,7 +133,7 @@ func GreaterThanOrEqual[T comparable](column sequel.ColumnClause[T], value T) se
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " >= " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " >= " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " >= " + w.Var(vi.Convert(value)))
 		default:
@@ -134,7 +146,7 @@ func LessThan[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " < " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " < " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " < " + w.Var(vi.Convert(value)))
 		default:
@@ -147,7 +159,7 @@ func LessThanOrEqual[T comparable](column sequel.ColumnClause[T], value T) seque
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " <= " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " <= " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " <= " + w.Var(vi.Convert(value)))
 		default:
@@ -160,7 +172,7 @@ func Like[T comparable](column sequel.ColumnClause[T], value T) sequel.WhereClau
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " LIKE " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " LIKE " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " LIKE " + w.Var(vi.Convert(value)))
 		default:
@@ -173,7 +185,7 @@ func NotLike[T comparable](column sequel.ColumnClause[T], value T) sequel.WhereC
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " NOT LIKE " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " NOT LIKE " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " NOT LIKE " + w.Var(vi.Convert(value)))
 		default:
@@ -198,7 +210,7 @@ func Between[T comparable](column sequel.ColumnClause[T], from, to T) sequel.Whe
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " BETWEEN " + w.Var(vi.Convert(from)) + " AND " + w.Var(vi.Convert(to)))
+			w.WriteString(vi.ColumnName() + " BETWEEN " + vi.SQLColumn(w.Var(vi.Convert(from))) + " AND " + vi.SQLColumn(w.Var(vi.Convert(to))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " BETWEEN " + w.Var(vi.Convert(from)) + " AND " + w.Var(vi.Convert(to)))
 		default:
@@ -211,7 +223,7 @@ func NotBetween[T comparable](column sequel.ColumnClause[T], from, to T) sequel.
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " NOT BETWEEN " + w.Var(vi.Convert(from)) + " AND " + w.Var(vi.Convert(to)))
+			w.WriteString(vi.ColumnName() + " NOT BETWEEN " + vi.SQLColumn(w.Var(vi.Convert(from))) + " AND " + vi.SQLColumn(w.Var(vi.Convert(to))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " NOT BETWEEN " + w.Var(vi.Convert(from)) + " AND " + w.Var(vi.Convert(to)))
 		default:
@@ -224,7 +236,7 @@ func Set[T any](column sequel.ColumnClause[T], value T) sequel.SetClause {
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(column.ColumnName() + " = " + w.Var(vi.Convert(value)))
+			w.WriteString(column.ColumnName() + " = " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(column.ColumnName() + " = " + w.Var(vi.Convert(value)))
 		default:
-- 
2.43.0


From 1330018089c7c648328f45fa4a6cd5ac2f623e4c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 00:17:43 +0000
Subject: [PATCH 48/58] fix: models do not take over the column lists of
 structs they embed but exclude

---
 cmd/sqlgen/codegen/generate.go           |  8 ++++--
 cmd/sqlgen/internal/compiler/compiler.go | 35 ++++++++++++++++++++++++
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index df9f4b3..ae153da 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -225,8 +225,9 @@ func (g *Generator) generateModels(
 		if !t.Readonly {
 			insertColumns := t.InsertColumns()
 			if n := len(insertColumns); n > 0 {
-				// If the insertable columns is not tally with the table columns means the struct has readonly columns
-				if n != len(t.Columns) && !t.Declares("InsertColumns") {
+				// If the insertable columns is not tally with the table columns means the struct has readonly columns,
+				// a struct which is embedded may promote the columns of its own
+				if (n != len(t.Columns) || t.EmbedsOthers()) && !t.Declares("InsertColumns") {
 					fprintfln(w, "func (%s) InsertColumns() []string {", t.GoName)
 					fmt.Fprint(w, "return []string{")
 					fmt.Fprint(w, g.Quote(g.QuoteIdentifier(insertColumns[0].Name)))
@@ -467,7 +468,8 @@ func (g *Generator) buildSqlColumns(w io.Writer, t *compiler.Table) error {
 			fmt.Fprint(blr, g.Quote(g.QuoteIdentifier(column.Name)))
 		}
 	}
-	if hasSQLScanner {
+	// A struct which is embedded may promote the columns of its own
+	if hasSQLScanner || t.EmbedsOthers() {
 		fprintfln(w, "func (%s) %s() []string {", t.GoName, methodName(sqlQueryColumner))
 		fprintfln(w, "return []string{%s} // %d", blr.String(), len(t.Columns))
 		fprintfln(w, "}")
diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index 205dc73..1e4c695 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -104,6 +104,41 @@ func (t *Table) Declares(method string) bool {
 	return false
 }
 
+// EmbedsOthers tells whether the struct embeds a struct whose fields are not
+// part of its columns, the methods of that are promoted and don't describe it
+func (t *Table) EmbedsOthers() bool {
+	expanded := make(map[string]struct{})
+	for _, c := range t.Columns {
+		var goPath string
+		for _, f := range c.goField.fieldPaths() {
+			if goPath != "" {
+				expanded[goPath] = struct{}{}
+			}
+			goPath += "." + f.name
+		}
+	}
+	return embedsOthers(t.t, "", expanded)
+}
+
+func embedsOthers(t types.Type, goPath string, expanded map[string]struct{}) bool {
+	if ptr, ok := t.Underlying().(*types.Pointer); ok {
+		t = ptr.Elem()
+	}
+	s, ok := t.Underlying().(*types.Struct)
+	if !ok {
+		return false
+	} else if _, ok := expanded[goPath]; goPath != "" && !ok {
+		return s.NumFields() > 0
+	}
+	for i := 0; i < s.NumFields(); i++ {
+		f := s.Field(i)
+		if f.Embedded() && embedsOthers(f.Type(), goPath+"."+f.Name(), expanded) {
+			return true
+		}
+	}
+	return false
+}
+
 func (t *Table) Implements(T *types.Interface) (*types.Func, bool) {
 	return missingMethod(t.t, T)
 }
-- 
2.43.0


From fccdee20b9181da201988a19748677b06422b65b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 01:05:33 +0000
Subject: [PATCH 49/58] fix: unsigned integers and FLOAT columns are read as
 MySQL hands them back

---
 sequel/encoding/float.go |  6 ++++++
 sequel/encoding/uint.go  | 15 +++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/sequel/encoding/float.go b/sequel/encoding/float.go
index 857324d..1dee871 100644
--- a/sequel/encoding/float.go
+++ b/sequel/encoding/float.go
@@ -51,6 +51,9 @@ func (f *float32Scanner[T, Addr]) Scan(v any) error {
 		default:
 			panic("unreachable")
 		}
+	case float32:
+		// MySQL hands back the columns of FLOAT like this
+		return f.Scan(float64(vi))
 	case float64:
 		val := T(vi)
 		if math.IsInf(float64(val), 0) && !math.IsInf(vi, 0) {
@@ -141,6 +144,9 @@ func (f *float64Scanner[T, Addr]) Scan(v any) error {
 		default:
 			panic("unreachable")
 		}
+	case float32:
+		// MySQL hands back the columns of FLOAT like this
+		return f.Scan(float64(vi))
 	case float64:
 		val := T(vi)
 		switch any(f.addr).(type) {
diff --git a/sequel/encoding/uint.go b/sequel/encoding/uint.go
index e714907..5c7fce3 100644
--- a/sequel/encoding/uint.go
+++ b/sequel/encoding/uint.go
@@ -93,6 +93,21 @@ func (u *unsignedIntScanner[T, Addr]) Scan(v any) error {
 		default:
 			panic("unreachable")
 		}
+	case uint64:
+		val := T(vi)
+		if uint64(val) != vi {
+			return fmt.Errorf(`sequel/encoding: value %d overflows %T`, vi, val)
+		}
+		switch any(u.addr).(type) {
+		case **T:
+			*(**T)(unsafe.Pointer(u.addr)) = &val
+			return nil
+		case *T:
+			*(*T)(unsafe.Pointer(u.addr)) = val
+			return nil
+		default:
+			panic("unreachable")
+		}
 	default:
 		return fmt.Errorf(`sequel/encoding: unable to scan %T to ~uint`, vi)
 	}
-- 
2.43.0


From 6ec6baacbc35c2ee3c46a8b0dfb71fb184dffe1e Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 01:05:33 +0000
Subject: [PATCH 50/58] fix: JSON values use the methods with pointer receiver

---
 sequel/encoding/json.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sequel/encoding/json.go b/sequel/encoding/json.go
index e60614f..1ba854b 100644
--- a/sequel/encoding/json.go
+++ b/sequel/encoding/json.go
@@ -27,7 +27,8 @@ func (j jsonValuer[T]) Value() (driver.Value, error) {
 		return vj.MarshalJSON()
 	default:
 		buf := new(bytes.Buffer)
-		if err := json.NewEncoder(buf).Encode(j.v); err != nil {
+		// The methods of the value may have a pointer receiver
+		if err := json.NewEncoder(buf).Encode(&j.v); err != nil {
 			return nil, err
 		}
 		return buf.Bytes(), nil
-- 
2.43.0


From 35c47b5b344e200788cc6e585ef11cbbe4ea0ccc Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 01:05:33 +0000
Subject: [PATCH 51/58] fix: time is read from the text SQLite stores it as

---
 cmd/sqlgen/codegen/generate.go | 3 ++-
 sequel/encoding/time.go        | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index ae153da..c590dbd 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -781,7 +781,8 @@ func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) st
 			return goPath
 		}
 	case *types.Named:
-		if tv.String() == typeOfTime {
+		// SQLite has no type for time, it is stored as text
+		if tv.String() == typeOfTime && g.dialect.Driver() != "sqlite" {
 			return goPath
 		}
 	}
diff --git a/sequel/encoding/time.go b/sequel/encoding/time.go
index 97efc8e..d0332e0 100644
--- a/sequel/encoding/time.go
+++ b/sequel/encoding/time.go
@@ -12,6 +12,8 @@ var (
 	ddmmyyyy         = regexp.MustCompile(`^\d{4}\-\d{2}\-\d{2}$`)
 	ddmmyyyyhhmmss   = regexp.MustCompile(`^\d{4}\-\d{2}\-\d{2}\s\d{2}\:\d{2}:\d{2}$`)
 	ddmmyyyyhhmmsstz = regexp.MustCompile(`^\d{4}\-\d{2}\-\d{2}\s\d{2}\:\d{2}:\d{2}\.\d+$`)
+	// This is how SQLite stores time
+	ddmmyyyyhhmmssoffset = regexp.MustCompile(`^\d{4}\-\d{2}\-\d{2}\s\d{2}\:\d{2}:\d{2}(\.\d+)?[\+\-]\d{2}:\d{2}$`)
 )
 
 type tsScanner[T addrOrPtr[time.Time]] struct {
@@ -103,6 +105,8 @@ func parseTime(str string) (time.Time, error) {
 		return time.Parse("2006-01-02 15:04:05", str)
 	case ddmmyyyyhhmmsstz.MatchString(str):
 		return time.Parse("2006-01-02 15:04:05.999999", str)
+	case ddmmyyyyhhmmssoffset.MatchString(str):
+		return time.Parse("2006-01-02 15:04:05.999999999-07:00", str)
 	default:
 		return time.Parse(time.RFC3339Nano, str)
 	}
-- 
2.43.0


From a49e82805985a4b438ca3a0c28b544174d7aa597 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 01:06:26 +0000
Subject: [PATCH 52/58] fix: every package of a type is imported, and go paths
 are not taken for packages

---
 cmd/sqlgen/codegen/expr.go    | 73 ++++++++++++++++++++++++-----------
 cmd/sqlgen/codegen/package.go | 10 +++--
 2 files changed, 56 insertions(+), 27 deletions(-)

diff --git a/cmd/sqlgen/codegen/expr.go b/cmd/sqlgen/codegen/expr.go
index e6468be..3f92a71 100644
--- a/cmd/sqlgen/codegen/expr.go
+++ b/cmd/sqlgen/codegen/expr.go
@@ -2,6 +2,7 @@ package codegen
 
 import (
 	"bytes"
+	"fmt"
 	"go/types"
 	"path/filepath"
 	"regexp"
@@ -49,44 +50,42 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 		params.GoPath = params.GoPath[1:]
 	}
 
+	// Go paths and types are put in after the package of the expression
+	// is imported, because they look like one
+	var parts []string
+	mark := func(str string) string {
+		parts = append(parts, fmt.Sprintf("\x00%d\x00", len(parts)/2), str)
+		return parts[len(parts)-2]
+	}
+
 	funcMap := template.FuncMap{
 		"goPath": func() string {
-			return params.GoPath
+			return mark(params.GoPath)
 		},
 		"elemType": func() string {
-			switch t := params.Type.(type) {
+			t := elemOf(params.Type)
+			switch v := t.Underlying().(type) {
 			case *types.Array:
-				return importPkgIfNeeded(pkg, t.Elem().String())
+				t = v.Elem()
 			case *types.Slice:
-				return importPkgIfNeeded(pkg, t.Elem().String())
-			case *types.Pointer:
-				return importPkgIfNeeded(pkg, t.Elem().String())
-			default:
-				return importPkgIfNeeded(pkg, params.Type.String())
+				t = v.Elem()
 			}
+			return mark(typeString(pkg, t))
 		},
 		"addrOfGoPath": func() string {
 			if params.IsPtr {
-				return params.GoPath
+				return mark(params.GoPath)
 			}
-			return "&" + params.GoPath
+			return "&" + mark(params.GoPath)
 		},
 		"baseType": func() string {
-			t := params.Type
-			for t != nil {
-				nt, ok := t.(*types.Pointer)
-				if !ok {
-					break
-				}
-				t = nt.Elem()
-			}
-			return importPkgIfNeeded(pkg, t.String())
+			return mark(typeString(pkg, elemOf(params.Type)))
 		},
 		"addr": func() string {
-			return "&" + params.GoPath
+			return "&" + mark(params.GoPath)
 		},
 	}
-	if params.Len > 0 {
+	if params.Len >= 0 {
 		funcMap["len"] = func() int64 {
 			return params.Len
 		}
@@ -98,12 +97,40 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 		panic(err)
 	}
 	buf := new(bytes.Buffer)
-	if err := tmpl.Execute(buf, actualGoPath); err != nil {
+	if err := tmpl.Execute(buf, mark(actualGoPath)); err != nil {
 		panic(err)
 	}
 	str = buf.String()
 	str = importPkgIfNeeded(pkg, str)
-	return str
+	if strings.HasPrefix(params.GoPath, "*") {
+		// The selector and the index bind tighter
+		for i := 0; i < len(parts); i += 2 {
+			str = strings.ReplaceAll(str, parts[i]+".", "("+parts[i]+").")
+			str = strings.ReplaceAll(str, parts[i]+"[", "("+parts[i]+")[")
+		}
+	}
+	return strings.NewReplacer(parts...).Replace(str)
+}
+
+// elemOf returns the type which the pointers point to
+func elemOf(t types.Type) types.Type {
+	for {
+		v, ok := types.Unalias(t).(*types.Pointer)
+		if !ok {
+			return t
+		}
+		t = v.Elem()
+	}
+}
+
+// typeString returns the type as it is written in the package
+func typeString(pkg *Package, t types.Type) string {
+	return types.TypeString(t, func(p *types.Package) string {
+		if imported, _ := pkg.Import(types.NewPackage(p.Path(), p.Name())); imported != nil {
+			return imported.Name()
+		}
+		return ""
+	})
 }
 
 func importPkgIfNeeded(pkg *Package, importPath string) string {
diff --git a/cmd/sqlgen/codegen/package.go b/cmd/sqlgen/codegen/package.go
index cf312f3..06b946b 100644
--- a/cmd/sqlgen/codegen/package.go
+++ b/cmd/sqlgen/codegen/package.go
@@ -34,6 +34,11 @@ func (p *Package) Import(pkg *types.Package) (*types.Package, bool) {
 		return p.imports[i], false
 	}
 
+	// If the import path is this package, skip to import
+	if pkg.Path() == p.PkgPath() {
+		return nil, false
+	}
+
 	pkgs, err := packages.Load(&packages.Config{
 		Mode: packages.NeedName,
 	}, pkg.Path())
@@ -41,10 +46,7 @@ func (p *Package) Import(pkg *types.Package) (*types.Package, bool) {
 		return pkg, false
 	}
 
-	// If the import path is this package, skip to import
-	if pkg.Path() == p.PkgPath() {
-		return nil, false
-	} else if pkgs[0].Name != "" && pkgs[0].Name != pkg.Name() {
+	if pkgs[0].Name != "" && pkgs[0].Name != pkg.Name() {
 		pkg.SetName(pkgs[0].Name)
 	}
 	alias := p.newAliasIfExists(pkg)
-- 
2.43.0


From acf73504e20e31e8036c1030975d101fbd566904 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 01:06:26 +0000
Subject: [PATCH 53/58] fix: driver.Valuer is told by its footprint, also with
 a pointer receiver

---
 cmd/sqlgen/codegen/generate.go |  7 ++++++-
 cmd/sqlgen/codegen/tool.go     | 26 ++++++++++++++++----------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index c590dbd..2b47a3e 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -753,17 +753,22 @@ func (g *Generator) valuer(importPkgs *Package, goPath string, t types.Type) str
 		return goPath
 	}
 	utype, isPtr := underlyingType(t)
+	ptr := types.NewPointer(utype)
 	if columnType, ok := g.columnTypes[t.String()]; ok && columnType.Valuer != "" {
 		return Expr(columnType.Valuer).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
-	} else if _, wrong := types.MissingMethod(utype, goSqlValuer, true); wrong {
+	} else if isSqlValuer(utype) {
 		if isPtr {
 			return Expr("(database/sql/driver.Valuer)({{goPath}})").Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 		}
 		return goPath
+	} else if isSqlValuer(ptr) {
+		return Expr("(database/sql/driver.Valuer)({{addrOfGoPath}})").Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 	} else if columnType, ok := g.columnDataType(t); ok && columnType.Valuer != "" {
 		return Expr(columnType.Valuer).Format(importPkgs, ExprParams{GoPath: goPath, IsPtr: isPtr, Type: t, Len: arraySize(t)})
 	} else if isImplemented(utype, textMarshaler) {
 		return Expr(goutil.GenericFunc(encoding.TextValue[time.Time], "{{goPath}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
+	} else if isImplemented(ptr, textMarshaler) {
+		return Expr(goutil.GenericFunc(encoding.TextValue[time.Time], "{{addrOfGoPath}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 	}
 	return Expr(g.defaultColumnTypes["*"].Valuer).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 }
diff --git a/cmd/sqlgen/codegen/tool.go b/cmd/sqlgen/codegen/tool.go
index 64d004c..1b80f59 100644
--- a/cmd/sqlgen/codegen/tool.go
+++ b/cmd/sqlgen/codegen/tool.go
@@ -84,26 +84,32 @@ func assertAsPtr[T any](v any) *T {
 }
 
 func arraySize(t types.Type) int64 {
-	for t != nil {
-		switch vt := t.(type) {
-		case *types.Pointer:
-			t = vt.Elem()
-		case *types.Array:
-			return vt.Len()
-		default:
-			return -1
-		}
+	if vt, ok := elemOf(t).Underlying().(*types.Array); ok {
+		return vt.Len()
 	}
 	return -1
 }
 
+// isSqlValuer checks the footprint by name, because the interface
+// and the type are not loaded together
+func isSqlValuer(t types.Type) bool {
+	method := types.NewMethodSet(t).Lookup(nil, goSqlValuer.Method(0).Name())
+	if method == nil {
+		return false
+	}
+	sig := method.Type().(*types.Signature)
+	return sig.Params().Len() == 0 && sig.Results().Len() == 2 &&
+		types.Unalias(sig.Results().At(0).Type()).String() == goSqlValuer.Method(0).Type().(*types.Signature).Results().At(0).Type().String() &&
+		types.Identical(sig.Results().At(1).Type(), types.Universe.Lookup("error").Type())
+}
+
 func isImplemented(t types.Type, iv *types.Interface) bool {
 	method, wrongType := types.MissingMethod(t, iv, true)
 	return method == nil && !wrongType
 }
 
 func pointerType(t types.Type) (*types.Pointer, bool) {
-	v, ok := t.(*types.Pointer)
+	v, ok := types.Unalias(t).(*types.Pointer)
 	if ok {
 		return v, true
 	}
-- 
2.43.0


From 05cc90c956deba23e8c5519fdec117f6cce42d22 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 01:06:26 +0000
Subject: [PATCH 54/58] fix: pointers to lists, arrays and aliases are read
 back, null as nil

---
 cmd/sqlgen/codegen/generate.go           | 32 +++++++++++-------------
 cmd/sqlgen/codegen/tool.go               |  7 +++---
 cmd/sqlgen/internal/compiler/compiler.go |  4 +--
 sequel/encoding/pointer.go               | 31 +++++++++++++++++++++++
 4 files changed, 51 insertions(+), 23 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 2b47a3e..224c4ee 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -164,7 +164,7 @@ func (g *Generator) generateModels(
 					fprintfln(w, `func (v *%s) ScanAutoIncr(val int64) error {
 	v%s = %s(val)
 	return nil
-}`, t.GoName, pk.GoPath, Expr(pk.Type.String()).Format(importPkgs))
+}`, t.GoName, pk.GoPath, typeString(importPkgs, pk.Type))
 				}
 			} else if len(t.Keys) == 1 {
 				pk = t.Keys[0]
@@ -310,7 +310,7 @@ func (g *Generator) generateModels(
 
 			if f.IsPtr() {
 				// Deference the pointer value and return it
-				fprintfln(w, "return %s", g.valuer(importPkgs, "*v"+f.GoPath, assertAsPtr[types.Pointer](f.Type).Elem()))
+				fprintfln(w, "return %s", g.valuer(importPkgs, "*v"+f.GoPath, assertAsPtr[types.Pointer](types.Unalias(f.Type)).Elem()))
 			} else {
 				fprintfln(w, "return %s", g.valuer(importPkgs, "v"+f.GoPath, f.Type))
 			}
@@ -344,10 +344,7 @@ func (g *Generator) generateModels(
 				typeStr = aliasname
 
 			default:
-				typeStr = f.Type.String()
-				if idx := strings.Index(typeStr, "."); idx > 0 {
-					typeStr = Expr(typeStr).Format(importPkgs)
-				}
+				typeStr = typeString(importPkgs, f.Type)
 				if isBasic {
 					fprintfln(w, "func (v %s) %s() sequel.ColumnClause[%s] {", t.GoName, g.config.Getter.Prefix+f.GoName, typeStr)
 				} else {
@@ -364,7 +361,7 @@ func (g *Generator) generateModels(
 				if f.IsPtr() {
 					fprintfln(w, "if val != nil {")
 					// Deference the pointer value and return it
-					fprintfln(w, "return %s", g.valuer(importPkgs, "*val", assertAsPtr[types.Pointer](f.Type).Elem()))
+					fprintfln(w, "return %s", g.valuer(importPkgs, "*val", assertAsPtr[types.Pointer](types.Unalias(f.Type)).Elem()))
 					fprintfln(w, "}")
 					fprintfln(w, "return nil")
 				} else {
@@ -495,7 +492,7 @@ func (g *Generator) buildScanner(w io.Writer, importPkgs *Package, table *compil
 	fprintfln(w, "func (v *%s) %s() []any {", table.GoName, methodName(sqlScanner))
 	for _, f := range table.GoPtrPaths() {
 		fprintfln(w, "if v%s == nil {", f.GoPath)
-		fmt.Fprintf(w, `v%s = new(%s)`, f.GoPath, Expr(strings.TrimPrefix(f.Type.String(), "*")).Format(importPkgs, ExprParams{}))
+		fmt.Fprintf(w, `v%s = new(%s)`, f.GoPath, typeString(importPkgs, assertAsPtr[types.Pointer](types.Unalias(f.Type)).Elem()))
 		fprintfln(w, "}")
 	}
 	fprintfln(w, "return []any{")
@@ -797,9 +794,15 @@ func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) st
 		}
 		return goPath
 	} else if columnType, ok := g.columnDataType(t); ok && columnType.Scanner != "" {
+		if isPtr && !strings.Contains(columnType.Scanner, "{{addr}}") {
+			// The scanner is for the value, the pointer is nil when the value is null
+			dest := Expr(columnType.Scanner).Format(importPkgs, ExprParams{GoPath: "(*dest)", Type: ptr.Elem(), Len: arraySize(t)})
+			expr := Expr(goutil.GenericFunc(encoding.PtrOf[any], "{{addr}}", "func(dest *{{baseType}}) any { return "+placeholderMark+" }")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t})
+			return strings.Replace(expr, placeholderMark, dest, 1)
+		}
 		return Expr(columnType.Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr, Len: arraySize(t)})
 	} else if isImplemented(ptr, textUnmarshaler) {
-		return Expr(goutil.GenericFuncName(encoding.TextScanner[time.Time, *time.Time, *time.Time], "{{elemType}}", "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
+		return Expr(goutil.GenericFuncName(encoding.TextScanner[time.Time, *time.Time, *time.Time], "{{baseType}}", "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 	}
 	return Expr(g.defaultColumnTypes["*"].Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 }
@@ -848,21 +851,14 @@ func printStruct(w io.Writer, importPkgs *Package, s *types.Struct) {
 				fmt.Fprint(w, f.Name()+" ")
 				printStruct(w, importPkgs, ft)
 			} else {
-				typeStr := f.Type().String()
-				if idx := strings.Index(typeStr, "."); idx > 0 {
-					typeStr = Expr(typeStr).Format(importPkgs)
-				}
-				fmt.Fprint(w, f.Name()+" "+typeStr)
+				fmt.Fprint(w, f.Name()+" "+typeString(importPkgs, f.Type()))
 				if tag := s.Tag(i); len(tag) > 0 {
 					fmt.Fprintf(w, " `%s`", s.Tag(i))
 				}
 				fmt.Fprintln(w)
 			}
 		default:
-			typeStr := f.Type().String()
-			if idx := strings.Index(typeStr, "."); idx > 0 {
-				typeStr = Expr(typeStr).Format(importPkgs)
-			}
+			typeStr := typeString(importPkgs, f.Type())
 			if f.Embedded() {
 				fmt.Fprint(w, typeStr)
 			} else {
diff --git a/cmd/sqlgen/codegen/tool.go b/cmd/sqlgen/codegen/tool.go
index 1b80f59..a4bb40d 100644
--- a/cmd/sqlgen/codegen/tool.go
+++ b/cmd/sqlgen/codegen/tool.go
@@ -4,12 +4,13 @@ import (
 	"fmt"
 	"go/types"
 	"regexp"
+	"strings"
 
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect"
 )
 
 var (
-	arrayRegexp = regexp.MustCompile(`^\[(\d+)\](rune|string|byte)$`)
+	arrayRegexp = regexp.MustCompile(`^\[(\d+)\](rune|string|byte|bool)$`)
 )
 
 func (g *Generator) columnDataType(t types.Type) (*dialect.ColumnType, bool) {
@@ -66,7 +67,7 @@ loop:
 		}
 	}
 	// Find fixed size array mapper
-	if matches := arrayRegexp.FindStringSubmatch(typeStr); len(matches) > 0 {
+	if matches := arrayRegexp.FindStringSubmatch(strings.TrimPrefix(typeStr, "*")); len(matches) > 0 {
 		if v, ok := g.defaultColumnTypes["[...]"+matches[2]]; ok {
 			// len, _ := strconv.Atoi(matches[1])
 			return v, true
@@ -117,7 +118,7 @@ func pointerType(t types.Type) (*types.Pointer, bool) {
 }
 
 func underlyingType(t types.Type) (ut types.Type, isNull bool) {
-	v, ok := t.(*types.Pointer)
+	v, ok := types.Unalias(t).(*types.Pointer)
 	if ok {
 		t, _ = underlyingType(v.Elem())
 		return t, true
diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index 1e4c695..8ef42dd 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -306,7 +306,7 @@ func reverse[S ~[]E, E any](s S) {
 	}
 }
 
-func isPtr(v any) bool {
-	_, ok := v.(*types.Pointer)
+func isPtr(t types.Type) bool {
+	_, ok := types.Unalias(t).(*types.Pointer)
 	return ok
 }
diff --git a/sequel/encoding/pointer.go b/sequel/encoding/pointer.go
index de24f68..18b9725 100644
--- a/sequel/encoding/pointer.go
+++ b/sequel/encoding/pointer.go
@@ -31,3 +31,34 @@ func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
 	*p.v = ptr
 	return nil
 }
+
+type ptrOf[T any] struct {
+	addr **T
+	dest func(*T) any
+}
+
+// PtrOf scans into a new value, using the destination of the value,
+// the pointer is nil when the value is null.
+func PtrOf[T any](addr **T, dest func(*T) any) sql.Scanner {
+	return ptrOf[T]{addr: addr, dest: dest}
+}
+
+func (p ptrOf[T]) Scan(v any) error {
+	if v == nil {
+		*p.addr = nil
+		return nil
+	}
+	ptr := new(T)
+	scanner, ok := p.dest(ptr).(sql.Scanner)
+	if !ok {
+		var val sql.Null[T]
+		if err := val.Scan(v); err != nil {
+			return err
+		}
+		*ptr = val.V
+	} else if err := scanner.Scan(v); err != nil {
+		return err
+	}
+	*p.addr = ptr
+	return nil
+}
-- 
2.43.0


From 490713edc4f61179d33e9a30966a9fe456b22d32 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 01:06:26 +0000
Subject: [PATCH 55/58] fix: runes, unsigned integers and fixed arrays are
 written and read as what they are

---
 .../codegen/dialect/mysql/column_type.go      |  2 +-
 .../codegen/dialect/postgres/column_type.go   | 22 ++---
 .../codegen/dialect/sqlite/column_type.go     |  4 +-
 sequel/driver/postgres/pgtype/bool_array.go   | 22 +++++
 sequel/driver/postgres/pgtype/string_array.go | 23 +++++
 sequel/encoding/rune.go                       | 84 +++++++++++++++++++
 6 files changed, 143 insertions(+), 14 deletions(-)
 create mode 100644 sequel/encoding/rune.go

diff --git a/cmd/sqlgen/codegen/dialect/mysql/column_type.go b/cmd/sqlgen/codegen/dialect/mysql/column_type.go
index b188fb9..455071c 100644
--- a/cmd/sqlgen/codegen/dialect/mysql/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/mysql/column_type.go
@@ -18,7 +18,7 @@ func (s *mysqlDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"rune": {
 			DataType: s.columnDataType("CHAR(1)"),
 			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.RuneScanner[rune, *rune], "{{elemType}}", "{{addr}}"),
 		},
 		"byte": {
 			DataType: s.columnDataType("CHAR(1)"),
diff --git a/cmd/sqlgen/codegen/dialect/postgres/column_type.go b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
index 49ab708..813d91d 100644
--- a/cmd/sqlgen/codegen/dialect/postgres/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
@@ -19,7 +19,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"rune": {
 			DataType: s.columnDataType("char(1)"),
 			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.RuneScanner[rune, *rune], "{{elemType}}", "{{addr}}"),
 		},
 		"byte": {
 			DataType: s.columnDataType("char(1)"),
@@ -69,7 +69,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		},
 		"uint": {
 			DataType: s.intDataType("int4", uint64(0)),
-			Valuer:   "(int64)({{goPath}})",
+			Valuer:   "(uint64)({{goPath}})",
 			Scanner:  goutil.GenericFuncName(encoding.UintScanner[uint, *uint], "{{elemType}}", "{{addr}}"),
 		},
 		"uint8": {
@@ -89,7 +89,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		},
 		"uint64": {
 			DataType: s.intDataType("bigint", uint64(0)),
-			Valuer:   "(int64)({{goPath}})",
+			Valuer:   "{{goPath}}",
 			Scanner:  goutil.GenericFuncName(encoding.Uint64Scanner[uint64, *uint64], "{{elemType}}", "{{addr}}"),
 		},
 		"float32": {
@@ -134,12 +134,12 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"[...]string": {
 			DataType: s.columnDataType("text[{{len}}]"),
 			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]({{goPath}}[:])",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]({{goPath}}[:])",
+			Scanner:  goutil.GenericFunc(pgtype.StringArrayScanner[string], "{{goPath}}[:]"),
 		},
 		"[...]bool": {
 			DataType: s.columnDataType("bool[{{len}}]"),
 			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.BoolArray[{{elemType}}]({{goPath}}[:])",
-			Scanner:  "(*github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.BoolArray[{{elemType}}])({{addrOfGoPath}}[:])",
+			Scanner:  goutil.GenericFunc(pgtype.BoolArrayScanner[bool], "{{goPath}}[:]"),
 		},
 		"[]string": {
 			DataType: s.columnDataType("text[]"),
@@ -148,13 +148,13 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		},
 		"[]rune": {
 			DataType: s.columnDataType("text"),
-			Valuer:   "string({{goPath}}[:])",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/types.FixedSizeRunes({{goPath}})",
+			Valuer:   "string({{goPath}})",
+			Scanner:  goutil.GenericFunc(encoding.RuneSliceScanner[[]rune], "{{addrOfGoPath}}"),
 		},
 		"[]byte": {
 			DataType: s.columnDataType("blob"),
 			Valuer:   "{{goPath}}",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.StringScanner[[]byte, *[]byte], "{{baseType}}", "{{addr}}"),
 		},
 		"[]bool": {
 			DataType: s.columnDataType("bool[]"),
@@ -162,9 +162,9 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 			Scanner:  "(*" + goutil.GetTypeName(pgtype.BoolArray[bool]{}) + "[{{elemType}}])({{addrOfGoPath}})",
 		},
 		"[][]byte": {
-			DataType: s.columnDataType("bytea"),
-			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteArray({{goPath}})",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteArray({{goPath}})",
+			DataType: s.columnDataType("bytea[]"),
+			Valuer:   "(github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteaArray[{{elemType}}])({{goPath}})",
+			Scanner:  "(*github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteaArray[{{elemType}}])({{addrOfGoPath}})",
 		},
 		"[]int": {
 			DataType: s.columnDataType("int4[]"),
diff --git a/cmd/sqlgen/codegen/dialect/sqlite/column_type.go b/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
index fa29e97..a1e0c90 100644
--- a/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
@@ -18,7 +18,7 @@ func (s *sqliteDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"rune": {
 			DataType: s.columnDataType("TEXT"),
 			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.RuneScanner[rune, *rune], "{{elemType}}", "{{addr}}"),
 		},
 		"byte": {
 			DataType: s.columnDataType("BLOB"),
@@ -62,7 +62,7 @@ func (s *sqliteDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		},
 		"uint": {
 			DataType: s.columnDataType("INTEGER", false),
-			Valuer:   "(int64)({{goPath}})",
+			Valuer:   "(uint64)({{goPath}})",
 			Scanner:  goutil.GenericFuncName(encoding.UintScanner[uint, *uint], "{{elemType}}", "{{addr}}"),
 		},
 		"uint8": {
diff --git a/sequel/driver/postgres/pgtype/bool_array.go b/sequel/driver/postgres/pgtype/bool_array.go
index 70878fa..f134e2a 100644
--- a/sequel/driver/postgres/pgtype/bool_array.go
+++ b/sequel/driver/postgres/pgtype/bool_array.go
@@ -82,3 +82,25 @@ func (a *BoolArray[T]) scanBytes(src []byte) error {
 	}
 	return nil
 }
+
+type boolArrayScanner[T ~bool] struct {
+	v []T
+}
+
+// BoolArrayScanner reads an array of fixed size.
+func BoolArrayScanner[T ~bool](v []T) sql.Scanner {
+	return boolArrayScanner[T]{v: v}
+}
+
+func (a boolArrayScanner[T]) Scan(src any) error {
+	var list BoolArray[T]
+	if err := list.Scan(src); err != nil {
+		return err
+	}
+	if src != nil && len(list) != len(a.v) {
+		return fmt.Errorf("pgtype: cannot convert %d elements to [%d]bool", len(list), len(a.v))
+	}
+	clear(a.v)
+	copy(a.v, list)
+	return nil
+}
diff --git a/sequel/driver/postgres/pgtype/string_array.go b/sequel/driver/postgres/pgtype/string_array.go
index 627d69d..dd92c76 100644
--- a/sequel/driver/postgres/pgtype/string_array.go
+++ b/sequel/driver/postgres/pgtype/string_array.go
@@ -1,6 +1,7 @@
 package pgtype
 
 import (
+	"database/sql"
 	"database/sql/driver"
 	"fmt"
 	"unsafe"
@@ -65,3 +66,25 @@ func (a *StringArray[T]) scanBytes(src []byte) error {
 	}
 	return nil
 }
+
+type stringArrayScanner[T ~string] struct {
+	v []T
+}
+
+// StringArrayScanner reads an array of fixed size.
+func StringArrayScanner[T ~string](v []T) sql.Scanner {
+	return stringArrayScanner[T]{v: v}
+}
+
+func (a stringArrayScanner[T]) Scan(src any) error {
+	var list StringArray[T]
+	if err := list.Scan(src); err != nil {
+		return err
+	}
+	if src != nil && len(list) != len(a.v) {
+		return fmt.Errorf("pgtype: cannot convert %d elements to [%d]string", len(list), len(a.v))
+	}
+	clear(a.v)
+	copy(a.v, list)
+	return nil
+}
diff --git a/sequel/encoding/rune.go b/sequel/encoding/rune.go
new file mode 100644
index 0000000..4c4e852
--- /dev/null
+++ b/sequel/encoding/rune.go
@@ -0,0 +1,84 @@
+package encoding
+
+import (
+	"database/sql"
+	"fmt"
+	"unicode/utf8"
+)
+
+type runeScanner[T ~rune, Addr addrOrPtr[T]] struct {
+	addr Addr
+}
+
+// RuneScanner reads the rune which is stored as text.
+func RuneScanner[T ~rune, Addr addrOrPtr[T]](addr Addr) sql.Scanner {
+	return &runeScanner[T, Addr]{addr: addr}
+}
+
+func (r *runeScanner[T, Addr]) Scan(v any) error {
+	var str string
+	switch vi := v.(type) {
+	case nil:
+		switch addr := any(r.addr).(type) {
+		case **T:
+			*addr = nil
+		case *T:
+			*addr = 0
+		}
+		return nil
+	case string:
+		str = vi
+	case []byte:
+		str = string(vi)
+	default:
+		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for ~rune`, vi)
+	}
+	val, size := utf8.DecodeRuneInString(str)
+	if size != len(str) || (val == utf8.RuneError && size == 1) {
+		return fmt.Errorf(`sequel/encoding: unable to convert %q to ~rune`, str)
+	}
+	if size == 0 {
+		val = 0
+	}
+	result := T(val)
+	switch addr := any(r.addr).(type) {
+	case **T:
+		*addr = &result
+	case *T:
+		*addr = result
+	}
+	return nil
+}
+
+type runesScanner[T ~rune] struct {
+	addr func([]T)
+}
+
+// RuneSliceScanner reads the runes which are stored as text.
+func RuneSliceScanner[S ~[]T, T ~rune](addr *S) sql.Scanner {
+	return &runesScanner[T]{addr: func(v []T) { *addr = v }}
+}
+
+func (r *runesScanner[T]) Scan(v any) error {
+	var str string
+	switch vi := v.(type) {
+	case nil:
+		r.addr(nil)
+		return nil
+	case string:
+		str = vi
+	case []byte:
+		str = string(vi)
+	default:
+		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for []~rune`, vi)
+	}
+	if !utf8.ValidString(str) {
+		return fmt.Errorf(`sequel/encoding: invalid UTF-8 text for []~rune`)
+	}
+	result := make([]T, 0, len(str))
+	for _, c := range str {
+		result = append(result, T(c))
+	}
+	r.addr(result)
+	return nil
+}
-- 
2.43.0


From aaff54eaf2199a4ca6da4b1691390247aadaea48 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 02:13:59 +0000
Subject: [PATCH 56/58] fix: a configuration file that is named is not mixed
 with the one of the current directory

---
 cmd/sqlgen/cmd.go             | 10 +++-------
 cmd/sqlgen/codegen/codegen.go |  7 +++++--
 cmd/sqlgen/codegen/config.go  |  3 +++
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/cmd/sqlgen/cmd.go b/cmd/sqlgen/cmd.go
index 1120145..77bd340 100644
--- a/cmd/sqlgen/cmd.go
+++ b/cmd/sqlgen/cmd.go
@@ -27,19 +27,15 @@ var (
 			}
 		},
 		RunE: func(cmd *cobra.Command, args []string) error {
-			var (
-				cfg = codegen.DefaultConfig()
-				err error
-			)
-
 			// If user passing config file, then we load from it.
 			if rootOpts.config != "" {
-				cfg, err = codegen.LoadConfigFrom(rootOpts.config)
+				cfg, err := codegen.LoadConfigFrom(rootOpts.config)
 				if err != nil {
 					return err
 				}
+				return codegen.Generate(cfg)
 			}
-			return codegen.Generate(cfg)
+			return codegen.Generate(codegen.DefaultConfig())
 		},
 	}
 )
diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index dcc10e1..4d79a0d 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -39,8 +39,11 @@ func Generate(c *Config) error {
 		return err
 	}
 
-	cfg := DefaultConfig()
-	if c != nil {
+	var cfg *Config
+	if c != nil && c.loaded {
+		// The configuration file is named, the one in the current directory has no say
+		cfg = new(Config).Merge(c)
+	} else if cfg = DefaultConfig(); c != nil {
 		cfg = cfg.Merge(c)
 	}
 
diff --git a/cmd/sqlgen/codegen/config.go b/cmd/sqlgen/codegen/config.go
index 196483e..45c5f01 100644
--- a/cmd/sqlgen/codegen/config.go
+++ b/cmd/sqlgen/codegen/config.go
@@ -63,6 +63,8 @@ type Config struct {
 	SkipHeader      bool                 `yaml:"skip_header"`
 	SkipModTidy     bool                 `yaml:"skip_mod_tidy"`
 	DataTypes       map[string]*DataType `yaml:"data_types"`
+
+	loaded bool // Whether it comes from a file that is named
 }
 
 type DataType struct {
@@ -293,6 +295,7 @@ func LoadConfigFrom(src string) (*Config, error) {
 	if err := decodeToFile(src, cfg); err != nil {
 		return nil, err
 	}
+	cfg.loaded = true
 	return cfg, nil
 }
 
-- 
2.43.0


From cdd64be37fdd0e8775815e40dbb7653a33f2577b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 02:27:17 +0000
Subject: [PATCH 57/58] fix: the type of an anonymous struct field is printed
 with all its tags

---
 cmd/sqlgen/codegen/generate.go | 38 +++++++++++++---------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 224c4ee..49dc450 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -845,32 +845,22 @@ func printStruct(w io.Writer, importPkgs *Package, s *types.Struct) {
 	fmt.Fprintln(w, "struct{")
 	for i := 0; i < s.NumFields(); i++ {
 		f := s.Field(i)
-		switch ft := f.Type().(type) {
-		case *types.Struct:
-			if !f.Embedded() {
-				fmt.Fprint(w, f.Name()+" ")
-				printStruct(w, importPkgs, ft)
-			} else {
-				fmt.Fprint(w, f.Name()+" "+typeString(importPkgs, f.Type()))
-				if tag := s.Tag(i); len(tag) > 0 {
-					fmt.Fprintf(w, " `%s`", s.Tag(i))
-				}
-				fmt.Fprintln(w)
-			}
-		default:
-			typeStr := typeString(importPkgs, f.Type())
-			if f.Embedded() {
-				fmt.Fprint(w, typeStr)
-			} else {
-				fmt.Fprint(w, f.Name()+" "+typeStr)
-			}
-			if tag := s.Tag(i); len(tag) > 0 {
-				fmt.Fprintf(w, " `%s`", s.Tag(i))
-			}
-			fmt.Fprintln(w)
+		if !f.Embedded() {
+			fmt.Fprint(w, f.Name()+" ")
+		}
+		if ft, ok := f.Type().(*types.Struct); ok {
+			printStruct(w, importPkgs, ft)
+		} else {
+			fmt.Fprint(w, typeString(importPkgs, f.Type()))
 		}
+		if tag := s.Tag(i); strconv.CanBackquote(tag) && len(tag) > 0 {
+			fmt.Fprintf(w, " `%s`", tag)
+		} else if len(tag) > 0 {
+			fmt.Fprint(w, " "+strconv.Quote(tag))
+		}
+		fmt.Fprintln(w)
 	}
-	fmt.Fprintln(w, "}")
+	fmt.Fprint(w, "}")
 }
 
 func methodName(i *types.Interface) string {
-- 
2.43.0


From 76f29a1ca22906b3fd43f175d851f0e2b2b9b108 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:33:06 +0000
Subject: [PATCH 58/58] fix: generic structs are not tables, and the columns of
 those that are embedded are found

---
 cmd/sqlgen/internal/compiler/compiler.go |  4 ++-
 cmd/sqlgen/internal/compiler/parser.go   | 42 +++++++++++++++++++-----
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index 8ef42dd..35c9aa3 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -297,7 +297,9 @@ type typeQueue struct {
 	idx  []int
 	prev *structField
 	t    *ast.StructType
-	pkg  *packages.Package
+	// Type of the struct, with the type arguments when it's an instance of a generic type
+	st  *types.Struct
+	pkg *packages.Package
 }
 
 func reverse[S ~[]E, E any](s S) {
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 847a074..5ea981f 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -90,6 +90,10 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				if typeSpec.Assign > 0 {
 					continue
 				}
+				// A generic type is not a table, only the structs which embed it are
+				if typeSpec.TypeParams != nil {
+					continue
+				}
 
 				filename := pkg.Fset.Position(typeSpec.Name.NamePos).Filename
 				if !cfg.Matcher.Match(filename) {
@@ -179,17 +183,19 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		// Pop the first item for further inspection
 		s := structCaches[0]
 		// Struct queue, this is useful when handling embedded struct
-		q := []typeQueue{{t: s.t, pkg: s.pkg}}
+		q := []typeQueue{{t: s.t, st: structType(pkg.TypesInfo.TypeOf(s.name)), pkg: s.pkg}}
 		structFields := make([]*structField, 0)
 
 		var f typeQueue
 		// Position of the next field in the struct being resolved,
 		// a single declaration may introduce more than one field
 		var pos int
+		// Position of the next field in the type of the struct being resolved
+		var n int
 		// Resolve every field on the struct, including nested struct
 		for len(q) > 0 {
 			f = q[0]
-			pos = 0
+			pos, n = 0, 0
 
 			// If the struct has empty field, just skip
 			if len(f.t.Fields.List) == 0 {
@@ -200,6 +206,11 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 			for i := range f.t.Fields.List {
 				var tag reflect.StructTag
 				fi := f.t.Fields.List[i]
+				fieldType := f.pkg.TypesInfo.TypeOf(fi.Type)
+				if f.st != nil {
+					fieldType = f.st.Field(n).Type()
+				}
+				n += max(1, len(fi.Names))
 				if fi.Tag != nil {
 					// The tag can be a raw or an interpreted string literal
 					str, err := strconv.Unquote(fi.Tag.Value)
@@ -231,7 +242,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 						if st, pkg := structOf(f.pkg, id); st != nil {
 							ft := &structField{
 								name:     id.Name,
-								t:        f.pkg.TypesInfo.TypeOf(fi.Type),
+								t:        fieldType,
 								index:    append(slices.Clone(f.idx), pos),
 								exported: id.IsExported(),
 								embedded: true,
@@ -244,6 +255,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 								idx:  ft.index,
 								prev: ft,
 								t:    st,
+								st:   structType(fieldType),
 								pkg:  pkg,
 							})
 							pos++
@@ -276,12 +288,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					}
 				}
 
-				for _, n := range fi.Names {
+				for _, name := range fi.Names {
 					structFields = append(structFields, &structField{
-						name:     types.ExprString(n),
-						t:        f.pkg.TypesInfo.TypeOf(fi.Type),
+						name:     types.ExprString(name),
+						t:        fieldType,
 						index:    append(slices.Clone(f.idx), pos),
-						exported: n.IsExported(),
+						exported: name.IsExported(),
 						parent:   f.prev,
 						tag:      tag,
 					})
@@ -441,18 +453,32 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 	return goPkg, nil
 }
 
-// The name in a type expression, which can be either `Type` or `pkg.Type`
+// The name in a type expression, which can be either `Type` or `pkg.Type`,
+// with or without type arguments
 func typeIdent(expr ast.Expr) *ast.Ident {
 	switch t := expr.(type) {
 	case *ast.Ident:
 		return t
 	case *ast.SelectorExpr:
 		return t.Sel
+	case *ast.IndexExpr:
+		return typeIdent(t.X)
+	case *ast.IndexListExpr:
+		return typeIdent(t.X)
 	default:
 		return nil
 	}
 }
 
+// The struct which a type, or the type it points to, is made of
+func structType(t types.Type) *types.Struct {
+	if ptr, ok := types.Unalias(t).(*types.Pointer); ok {
+		t = ptr.Elem()
+	}
+	st, _ := t.Underlying().(*types.Struct)
+	return st
+}
+
 // Find the struct which a type name stands for, together with the package
 // it is declared in. A type can be defined by another type, e.g: `type B A`
 func structOf(pkg *packages.Package, id *ast.Ident) (*ast.StructType, *packages.Package) {
-- 
2.43.0


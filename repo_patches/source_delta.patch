From 95b318836d47ffb007755205ed5ea88f45bf26a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:00 +0000
Subject: [PATCH 01/31] fix: report close failures from apply.Apply (result was
 unnamed, connection error was shadowed)

---
 pkg/ddlctl/apply/ddlctl_apply.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index d775fa0..c8b32da 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -93,7 +93,7 @@ Enter a value: `
 }
 
 //nolint:cyclop,funlen,gocognit,gocyclo
-func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
+func Apply(ctx context.Context, dialect, dsn, ddlStr string) (err error) {
 	driverName := func() string {
 		switch dialect {
 		case ddlcrdb.Dialect:
@@ -137,9 +137,9 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 			return apperr.Errorf("splitExec: %w", err)
 		}
 	case ddlspanner.DriverName:
-		conn, err := db.Conn(ctx)
-		if err != nil {
-			return apperr.Errorf("db.Conn: %w", err)
+		conn, connErr := db.Conn(ctx)
+		if connErr != nil {
+			return apperr.Errorf("db.Conn: %w", connErr)
 		}
 		defer func() {
 			if err2 := conn.Close(); err == nil && err2 != nil {
-- 
2.43.0


From ad39f8ebc8a1cd320d36a7a50f665801310b774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 02/31] fix: do not cut statements at '--' inside literals or
 after a 64KB line when applying

---
 pkg/internal/util/remove_comment.go | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/pkg/internal/util/remove_comment.go b/pkg/internal/util/remove_comment.go
index bcfb28e..92ad9bc 100644
--- a/pkg/internal/util/remove_comment.go
+++ b/pkg/internal/util/remove_comment.go
@@ -1,33 +1,24 @@
 package util
 
 import (
-	"bufio"
 	"strings"
 )
 
+// RemoveCommentsAndEmptyLines removes the empty lines and the lines that consist of a comment.
+// NOTE: A prefix in the middle of a line may be part of a string literal, so it is left as it is.
 func RemoveCommentsAndEmptyLines(prefix, input string) string {
 	var result strings.Builder
-	scanner := bufio.NewScanner(strings.NewReader(input))
 
-	for scanner.Scan() {
-		line := scanner.Text()
+	for _, line := range strings.Split(input, "\n") {
 		trimmedLine := strings.TrimSpace(line)
 
-		// Skip if the entire line is a comment
-		if strings.HasPrefix(trimmedLine, prefix) {
+		// Skip if the entire line is empty or a comment
+		if trimmedLine == "" || strings.HasPrefix(trimmedLine, prefix) {
 			continue
 		}
 
-		// Process comments in the line
-		if idx := strings.Index(line, prefix); idx != -1 {
-			line = strings.TrimSpace(line[:idx])
-		}
-
-		// Add only if it is not an empty line
-		if line != "" {
-			result.WriteString(line)
-			result.WriteString("\n")
-		}
+		result.WriteString(line)
+		result.WriteString("\n")
 	}
 
 	return result.String()
-- 
2.43.0


From c38cbf986579ebb82e013c1c82b9c383c6110de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 03/31] fix: do not modify the after table when a rename takes
 the schema from before

---
 pkg/ddl/cockroachdb/diff_create_table.go | 9 ++++++---
 pkg/ddl/mysql/diff_create_table.go       | 9 ++++++---
 pkg/ddl/postgres/diff_create_table.go    | 9 ++++++---
 pkg/ddl/spanner/diff_create_table.go     | 9 ++++++---
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index b3b9b0f..27b4060 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -60,12 +60,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
+		if after.Name.Schema == nil {
+			// NOTE: do not modify the table given by the caller.
+			renamed := *after
+			renamed.Name = &ObjectName{Schema: before.Name.Schema, Name: after.Name.Name}
+			after = &renamed
+		}
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 2c4472b..4ede35e 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -60,12 +60,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
+		if after.Name.Schema == nil {
+			// NOTE: do not modify the table given by the caller.
+			renamed := *after
+			renamed.Name = &ObjectName{Schema: before.Name.Schema, Name: after.Name.Name}
+			after = &renamed
+		}
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 37fbc47..15695ca 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -59,12 +59,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
+		if after.Name.Schema == nil {
+			// NOTE: do not modify the table given by the caller.
+			renamed := *after
+			renamed.Name = &ObjectName{Schema: before.Name.Schema, Name: after.Name.Name}
+			after = &renamed
+		}
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
diff --git a/pkg/ddl/spanner/diff_create_table.go b/pkg/ddl/spanner/diff_create_table.go
index 383eb18..160e7e5 100644
--- a/pkg/ddl/spanner/diff_create_table.go
+++ b/pkg/ddl/spanner/diff_create_table.go
@@ -67,12 +67,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
+		if after.Name.Schema == nil {
+			// NOTE: do not modify the table given by the caller.
+			renamed := *after
+			renamed.Name = &ObjectName{Schema: before.Name.Schema, Name: after.Name.Name}
+			after = &renamed
+		}
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
-- 
2.43.0


From 7d51d1afb555578e46cdad4b4d7b033ccd6e1236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:11 +0000
Subject: [PATCH 04/31] fix: mysql prints and compares ON DELETE / ON UPDATE of
 foreign keys

---
 pkg/ddl/mysql/ddl_table.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index c0dfe95..128f3f8 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -104,6 +104,9 @@ func (c *ForeignKeyConstraint) String() string {
 	str += " (" + stringz.JoinStringers(", ", c.Columns...) + ")"
 	str += " REFERENCES " + c.Ref.String()
 	str += " (" + stringz.JoinStringers(", ", c.RefColumns...) + ")"
+	if c.OnAction != "" {
+		str += " " + c.OnAction
+	}
 	return str
 }
 
@@ -130,6 +133,9 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 		str += v.StringForDiff()
 	}
 	str += ")"
+	if c.OnAction != "" {
+		str += " " + c.OnAction
+	}
 	return str
 }
 
-- 
2.43.0


From 587970f73a88148d3e46d4a5d4ff147726064979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:11 +0000
Subject: [PATCH 05/31] fix: mysql keeps both ON actions of an inline foreign
 key

---
 pkg/ddl/mysql/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 4b72a3c..5e54173 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -566,7 +566,7 @@ LabelConstraints:
 				if err != nil {
 					return nil, apperr.Errorf("parseOnAction: %w", err)
 				}
-				constraint.OnAction = onAction
+				constraint.OnAction += " " + onAction
 			}
 
 			constraint.RefColumns = idents
-- 
2.43.0


From 2b735a142143ac4a68f56e5b68d3934cb27af253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:40 +0000
Subject: [PATCH 06/31] fix: mysql MODIFY keeps the character set of the column

---
 pkg/ddl/mysql/diff_create_table.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 4ede35e..7adf4a8 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -264,6 +264,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 				Action: &ModifyColumn{
 					Name:          afterColumn.Name,
 					DataType:      afterColumn.DataType,
+					CharacterSet:  afterColumn.CharacterSet,
 					Collate:       afterColumn.Collate,
 					NotNull:       afterColumn.NotNull,
 					AutoIncrement: afterColumn.AutoIncrement,
-- 
2.43.0


From e57b99e3dae259be21f4d92d99ca5771ef463884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:54 +0000
Subject: [PATCH 07/31] fix: cockroachdb/mysql drop a changed constraint as
 what it was before

---
 pkg/ddl/cockroachdb/diff_create_table.go | 67 +++++++++++-----------
 pkg/ddl/mysql/diff_create_table.go       | 71 ++++++++++++------------
 2 files changed, 68 insertions(+), 70 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index 27b4060..3374091 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -106,46 +106,45 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
 		if afterConstraint != nil {
 			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
+				// NOTE: what is dropped follows the definition before, what is added follows the definition after.
+				switch beforeConstraint.(type) { //diff:ignore-line-postgres-cockroach
+				case *IndexConstraint: //diff:ignore-line-postgres-cockroach
+					// DROP INDEX index_name; //diff:ignore-line-postgres-cockroach
+					result.Stmts = append(result.Stmts, &DropIndexStmt{ //diff:ignore-line-postgres-cockroach
+						Comment: simplediff.Diff(beforeConstraint.String(), afterConstraint.String()).String(), //diff:ignore-line-postgres-cockroach
+						Name:    beforeConstraint.GetName(),                                                    //diff:ignore-line-postgres-cockroach
+					}) //diff:ignore-line-postgres-cockroach
+				default: //diff:ignore-line-postgres-cockroach
+					// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
+					result.Stmts = append(result.Stmts, &AlterTableStmt{
+						Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
+						Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
+						Action: &DropConstraint{
+							Name: beforeConstraint.GetName(),
+						},
+					})
+				} //diff:ignore-line-postgres-cockroach
 				switch ac := afterConstraint.(type) { //diff:ignore-line-postgres-cockroach
 				case *IndexConstraint: //diff:ignore-line-postgres-cockroach
-					// DROP INDEX index_name;                               //diff:ignore-line-postgres-cockroach
 					// CREATE INDEX index_name ON table_name (column_name); //diff:ignore-line-postgres-cockroach
-					result.Stmts = append( //diff:ignore-line-postgres-cockroach
-						result.Stmts, //diff:ignore-line-postgres-cockroach
-						&DropIndexStmt{ //diff:ignore-line-postgres-cockroach
-							Comment: simplediff.Diff(beforeConstraint.String(), afterConstraint.String()).String(), //diff:ignore-line-postgres-cockroach
-							Name:    beforeConstraint.GetName(),                                                    //diff:ignore-line-postgres-cockroach
-						}, //diff:ignore-line-postgres-cockroach
-						&CreateIndexStmt{ //diff:ignore-line-postgres-cockroach
-							Unique:           ac.Unique,           //diff:ignore-line-postgres-cockroach
-							Name:             ac.GetName(),        //diff:ignore-line-postgres-cockroach
-							TableName:        after.Name,          //diff:ignore-line-postgres-cockroach
-							UsingPreColumns:  ac.UsingPreColumns,  //diff:ignore-line-postgres-cockroach
-							Columns:          ac.Columns,          //diff:ignore-line-postgres-cockroach
-							UsingPostColumns: ac.UsingPostColumns, //diff:ignore-line-postgres-cockroach
-						}, //diff:ignore-line-postgres-cockroach
-					) //diff:ignore-line-postgres-cockroach
+					result.Stmts = append(result.Stmts, &CreateIndexStmt{ //diff:ignore-line-postgres-cockroach
+						Unique:           ac.Unique,           //diff:ignore-line-postgres-cockroach
+						Name:             ac.GetName(),        //diff:ignore-line-postgres-cockroach
+						TableName:        after.Name,          //diff:ignore-line-postgres-cockroach
+						UsingPreColumns:  ac.UsingPreColumns,  //diff:ignore-line-postgres-cockroach
+						Columns:          ac.Columns,          //diff:ignore-line-postgres-cockroach
+						UsingPostColumns: ac.UsingPostColumns, //diff:ignore-line-postgres-cockroach
+					}) //diff:ignore-line-postgres-cockroach
 				default: //diff:ignore-line-postgres-cockroach
-					// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
-					result.Stmts = append(
-						result.Stmts,
-						&AlterTableStmt{
-							Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
-							Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
-							Action: &DropConstraint{
-								Name: beforeConstraint.GetName(),
-							},
-						},
-						&AlterTableStmt{
-							Comment: simplediff.Diff("", afterConstraint.String()).String(),
-							Name:    after.Name,
-							Action: &AddConstraint{
-								Constraint: afterConstraint,
-								NotValid:   config.UseAlterTableAddConstraintNotValid,
-							},
+					result.Stmts = append(result.Stmts, &AlterTableStmt{
+						Comment: simplediff.Diff("", afterConstraint.String()).String(),
+						Name:    after.Name,
+						Action: &AddConstraint{
+							Constraint: afterConstraint,
+							NotValid:   config.UseAlterTableAddConstraintNotValid,
 						},
-					)
+					})
 				} //diff:ignore-line-postgres-cockroach
 			}
 			continue
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 7adf4a8..4b6a8d8 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -109,49 +109,48 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
 		if afterConstraint != nil {
 			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
-				switch ac := afterConstraint.(type) {
+				// NOTE: what is dropped follows the definition before, what is added follows the definition after.
+				switch beforeConstraint.(type) {
 				case *IndexConstraint:
 					// DROP INDEX index_name;
-					// CREATE INDEX index_name ON table_name (column_name);
-					result.Stmts = append(
-						result.Stmts,
-						&DropIndexStmt{
-							Name: &ObjectName{
-								Schema: before.Name.Schema,
-								Name:   beforeConstraint.GetName(),
-							},
-						},
-						&CreateIndexStmt{
-							Unique: ac.Unique,
-							Name: &ObjectName{
-								Schema: after.Name.Schema,
-								Name:   ac.GetName(),
-							},
-							TableName: after.Name,
-							Columns:   ac.Columns,
+					result.Stmts = append(result.Stmts, &DropIndexStmt{
+						Name: &ObjectName{
+							Schema: before.Name.Schema,
+							Name:   beforeConstraint.GetName(),
 						},
-					)
+					})
 				default:
 					// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
-					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
-					result.Stmts = append(
-						result.Stmts,
-						&AlterTableStmt{
-							Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
-							Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
-							Action: &DropConstraint{
-								Name: beforeConstraint.GetName(),
-							},
+					result.Stmts = append(result.Stmts, &AlterTableStmt{
+						Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
+						Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
+						Action: &DropConstraint{
+							Name: beforeConstraint.GetName(),
 						},
-						&AlterTableStmt{
-							Comment: simplediff.Diff("", afterConstraint.String()).String(),
-							Name:    after.Name,
-							Action: &AddConstraint{
-								Constraint: afterConstraint,
-								NotValid:   config.UseAlterTableAddConstraintNotValid,
-							},
+					})
+				}
+				switch ac := afterConstraint.(type) {
+				case *IndexConstraint:
+					// CREATE INDEX index_name ON table_name (column_name);
+					result.Stmts = append(result.Stmts, &CreateIndexStmt{
+						Unique: ac.Unique,
+						Name: &ObjectName{
+							Schema: after.Name.Schema,
+							Name:   ac.GetName(),
+						},
+						TableName: after.Name,
+						Columns:   ac.Columns,
+					})
+				default:
+					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
+					result.Stmts = append(result.Stmts, &AlterTableStmt{
+						Comment: simplediff.Diff("", afterConstraint.String()).String(),
+						Name:    after.Name,
+						Action: &AddConstraint{
+							Constraint: afterConstraint,
+							NotValid:   config.UseAlterTableAddConstraintNotValid,
 						},
-					)
+					})
 				}
 			}
 			continue
-- 
2.43.0


From 242e143ee97419873ebb52927c91d04f1ceb1e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:15 +0000
Subject: [PATCH 08/31] fix: do not skip the token after an inline REFERENCES
 or CHECK

---
 pkg/ddl/cockroachdb/parser.go | 3 +++
 pkg/ddl/mysql/parser.go       | 2 ++
 pkg/ddl/postgres/parser.go    | 3 +++
 pkg/ddl/spanner/parser.go     | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 2723959..ef966b4 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -581,9 +581,11 @@ LabelConstraints:
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
 				constraint.OnAction = onAction
+				p.nextToken() // current = any
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // current = token after the references
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{ //diff:ignore-line-postgres-cockroach
 				Unique:  true, //diff:ignore-line-postgres-cockroach
@@ -604,6 +606,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // current = token after the expression
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 5e54173..52d1cd8 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -571,6 +571,7 @@ LabelConstraints:
 
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // current = token after the references
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{
 				Unique:  true,
@@ -591,6 +592,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // current = token after the expression
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_COMMENT:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 7d3d3af..8e2c968 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -474,9 +474,11 @@ LabelConstraints:
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
 				constraint.OnAction = onAction
+				p.nextToken() // current = any
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // current = token after the references
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&UniqueConstraint{ //diff:ignore-line-postgres-cockroach
 				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
@@ -496,6 +498,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // current = token after the expression
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 4e1177a..49af012 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -595,6 +595,7 @@ LabelConstraints:
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // current = token after the references
 		case TOKEN_CHECK:
 			if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
@@ -609,6 +610,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // current = token after the expression
 		case TOKEN_OPTIONS, TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
-- 
2.43.0


From 073d8d37a0519d38a6c3d43575864b6cc609cfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:18 +0000
Subject: [PATCH 09/31] fix: move past the ON action of a table-level foreign
 key (postgres, cockroachdb)

---
 pkg/ddl/cockroachdb/parser.go | 8 ++++++--
 pkg/ddl/postgres/parser.go    | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index ef966b4..cd5da1f 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -693,10 +693,14 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			}
 			p.nextToken()                                     // current = CASCADE or NO
 			onAction += " " + p.currentToken.Literal.String() // current = CASCADE or NO
-			if p.isCurrentToken(TOKEN_NO) && p.isPeekToken(TOKEN_ACTION) {
-				p.nextToken()                                     // current = ACTION
+			if p.isCurrentToken(TOKEN_NO) {
+				p.nextToken() // current = ACTION
+				if err := p.checkCurrentToken(TOKEN_ACTION); err != nil {
+					return nil, apperr.Errorf("checkCurrentToken: %w", err)
+				}
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
+			p.nextToken() // current = any
 		}
 		if constraintName == nil {
 			name := tableName.StringForDiff()
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 8e2c968..9c4e2e6 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -585,10 +585,14 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			}
 			p.nextToken()                                     // current = CASCADE or NO
 			onAction += " " + p.currentToken.Literal.String() // current = CASCADE or NO
-			if p.isCurrentToken(TOKEN_NO) && p.isPeekToken(TOKEN_ACTION) {
-				p.nextToken()                                     // current = ACTION
+			if p.isCurrentToken(TOKEN_NO) {
+				p.nextToken() // current = ACTION
+				if err := p.checkCurrentToken(TOKEN_ACTION); err != nil {
+					return nil, apperr.Errorf("checkCurrentToken: %w", err)
+				}
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
+			p.nextToken() // current = any
 		}
 		if constraintName == nil {
 			name := tableName.StringForDiff()
-- 
2.43.0


From 0d75ba938bcb37d24bc9e88949cc150e19f3eee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:44 +0000
Subject: [PATCH 10/31] fix: do not skip the token after a CREATE INDEX
 statement

---
 pkg/ddl/cockroachdb/parser.go | 1 +
 pkg/ddl/mysql/parser.go       | 1 +
 pkg/ddl/postgres/parser.go    | 1 +
 pkg/ddl/spanner/parser.go     | 1 +
 4 files changed, 4 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index cd5da1f..e0c82a2 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -87,6 +87,7 @@ LabelDDL:
 				return nil, apperr.Errorf("parseCreateStatement: %w", err)
 			}
 			d.Stmts = append(d.Stmts, stmt)
+			continue // current = token after the statement
 		case TOKEN_CLOSE_PAREN:
 			// do nothing
 		case TOKEN_SEMICOLON:
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 52d1cd8..6acfff2 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -86,6 +86,7 @@ LabelDDL:
 				return nil, apperr.Errorf("parseCreateStatement: %w", err)
 			}
 			d.Stmts = append(d.Stmts, stmt)
+			continue // current = token after the statement
 		case TOKEN_CLOSE_PAREN:
 			// do nothing
 		case TOKEN_SEMICOLON:
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 9c4e2e6..10637a6 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -87,6 +87,7 @@ LabelDDL:
 				return nil, apperr.Errorf("parseCreateStatement: %w", err)
 			}
 			d.Stmts = append(d.Stmts, stmt)
+			continue // current = token after the statement
 		case TOKEN_CLOSE_PAREN:
 			// do nothing
 		case TOKEN_SEMICOLON:
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 49af012..fe6a1dd 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -86,6 +86,7 @@ LabelDDL:
 				return nil, apperr.Errorf("parseCreateStatement: %w", err)
 			}
 			d.Stmts = append(d.Stmts, stmt)
+			continue // current = token after the statement
 		case TOKEN_CLOSE_PAREN:
 			// do nothing
 		case TOKEN_SEMICOLON:
-- 
2.43.0


From 705cce885a2dbe1d7d9bf46f33c732abd60d34a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:03 +0000
Subject: [PATCH 11/31] fix: CREATE UNIQUE must be followed by INDEX

---
 pkg/ddl/cockroachdb/parser.go | 3 +++
 pkg/ddl/mysql/parser.go       | 3 +++
 pkg/ddl/postgres/parser.go    | 3 +++
 pkg/ddl/spanner/parser.go     | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index e0c82a2..59281a6 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -206,6 +206,9 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 	if p.isCurrentToken(TOKEN_UNIQUE) {
 		createIndexStmt.Unique = true
 		p.nextToken() // current = INDEX
+		if err := p.checkCurrentToken(TOKEN_INDEX); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
 	}
 
 	if p.isPeekToken(TOKEN_IF) {
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 6acfff2..14e5e09 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -271,6 +271,9 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 	if p.isCurrentToken(TOKEN_UNIQUE) {
 		createIndexStmt.Unique = true
 		p.nextToken() // current = INDEX
+		if err := p.checkCurrentToken(TOKEN_INDEX); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
 	}
 
 	if p.isPeekToken(TOKEN_IF) {
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 10637a6..9782de7 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -204,6 +204,9 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 	if p.isCurrentToken(TOKEN_UNIQUE) {
 		createIndexStmt.Unique = true
 		p.nextToken() // current = INDEX
+		if err := p.checkCurrentToken(TOKEN_INDEX); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
 	}
 
 	if p.isPeekToken(TOKEN_IF) {
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index fe6a1dd..14a992f 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -343,6 +343,9 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 	if p.isCurrentToken(TOKEN_UNIQUE) {
 		createIndexStmt.Unique = true
 		p.nextToken() // current = INDEX
+		if err := p.checkCurrentToken(TOKEN_INDEX); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
 	}
 
 	if p.isPeekToken(TOKEN_IF) {
-- 
2.43.0


From 249f5cadf9eaba0d4707f6336f1589f9520a4f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:06 +0000
Subject: [PATCH 12/31] fix: do not panic on a default or computed value that
 starts with a data type name (postgres, cockroachdb)

---
 pkg/ddl/cockroachdb/parser.go | 4 ++--
 pkg/ddl/postgres/parser.go    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 59281a6..127aca4 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -388,7 +388,7 @@ LabelDefault:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				def.Value.Idents = append(def.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
@@ -436,7 +436,7 @@ LabelAs:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				as.Value.Idents = append(as.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				as.Value = as.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 9782de7..907aca4 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -361,7 +361,7 @@ LabelDefault:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				def.Value.Idents = append(def.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
-- 
2.43.0


From 836dde8cd628bdcbab16dc5db1773571a1f3d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 13/31] fix: name an unnamed table-level CHECK constraint
 (spanner)

---
 pkg/ddl/spanner/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 14a992f..6dcdf81 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -693,6 +693,9 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if err != nil {
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
+		if constraintName == nil {
+			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
 		return constraint, nil
-- 
2.43.0


From cdb263676357d814c68676d2a3d44234c309cdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:41 +0000
Subject: [PATCH 14/31] fix: report unterminated quotes and NUL characters as
 illegal tokens

---
 pkg/ddl/cockroachdb/lexar.go | 19 +++++++++++++++++--
 pkg/ddl/mysql/lexar.go       | 19 +++++++++++++++++--
 pkg/ddl/postgres/lexar.go    | 19 +++++++++++++++++--
 pkg/ddl/spanner/lexar.go     | 19 +++++++++++++++++--
 4 files changed, 68 insertions(+), 8 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index af40fb0..2899efe 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -326,6 +326,9 @@ func (l *Lexer) NextToken() Token {
 	case '"', '\'':
 		tok.Type = TOKEN_IDENT
 		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		if l.isEOF() { // unterminated
+			tok.Type = TOKEN_ILLEGAL
+		}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -370,6 +373,10 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if !l.isEOF() {
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -392,13 +399,21 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
+		if l.isEOF() {
+			return l.input[position:]
+		}
+		if l.ch == quote {
 			break
 		}
 	}
 	return l.input[position : l.position+1]
 }
 
+// isEOF は入力の終端に達したかどうかを返します。
+func (l *Lexer) isEOF() bool {
+	return l.position >= len(l.input)
+}
+
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
 func (l *Lexer) peekChar() byte {
 	if l.readPosition >= len(l.input) {
@@ -438,7 +453,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index be26985..1edea35 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -349,6 +349,9 @@ func (l *Lexer) NextToken() Token {
 	case '"', '\'', '`':
 		tok.Type = TOKEN_IDENT
 		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		if l.isEOF() { // unterminated
+			tok.Type = TOKEN_ILLEGAL
+		}
 	// MEMO: backup
 	// case '|':
 	// 	if l.peekChar() == '|' {
@@ -394,6 +397,10 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if !l.isEOF() {
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -416,13 +423,21 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
+		if l.isEOF() {
+			return l.input[position:]
+		}
+		if l.ch == quote {
 			break
 		}
 	}
 	return l.input[position : l.position+1]
 }
 
+// isEOF は入力の終端に達したかどうかを返します。
+func (l *Lexer) isEOF() bool {
+	return l.position >= len(l.input)
+}
+
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
 func (l *Lexer) peekChar() byte {
 	if l.readPosition >= len(l.input) {
@@ -462,7 +477,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 6a6be0d..3b9738b 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -305,6 +305,9 @@ func (l *Lexer) NextToken() Token {
 	case '"', '\'':
 		tok.Type = TOKEN_IDENT
 		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		if l.isEOF() { // unterminated
+			tok.Type = TOKEN_ILLEGAL
+		}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -344,6 +347,10 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if !l.isEOF() {
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -366,13 +373,21 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
+		if l.isEOF() {
+			return l.input[position:]
+		}
+		if l.ch == quote {
 			break
 		}
 	}
 	return l.input[position : l.position+1]
 }
 
+// isEOF は入力の終端に達したかどうかを返します。
+func (l *Lexer) isEOF() bool {
+	return l.position >= len(l.input)
+}
+
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
 func (l *Lexer) peekChar() byte {
 	if l.readPosition >= len(l.input) {
@@ -412,7 +427,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index fb7a2ad..d16fc83 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -305,6 +305,9 @@ func (l *Lexer) NextToken() Token {
 	case '"', '\'', '`':
 		tok.Type = TOKEN_IDENT
 		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		if l.isEOF() { // unterminated
+			tok.Type = TOKEN_ILLEGAL
+		}
 	// MEMO: backup
 	// case '|':
 	// 	if l.peekChar() == '|' {
@@ -350,6 +353,10 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if !l.isEOF() {
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -372,13 +379,21 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
+		if l.isEOF() {
+			return l.input[position:]
+		}
+		if l.ch == quote {
 			break
 		}
 	}
 	return l.input[position : l.position+1]
 }
 
+// isEOF は入力の終端に達したかどうかを返します。
+func (l *Lexer) isEOF() bool {
+	return l.position >= len(l.input)
+}
+
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
 func (l *Lexer) peekChar() byte {
 	if l.readPosition >= len(l.input) {
@@ -418,7 +433,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
 }
-- 
2.43.0


From 1fa33c3defb21ea5c14fc1051259f031633976bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:09 +0000
Subject: [PATCH 15/31] fix: keep quoted literals with embedded quotes in one
 token

---
 pkg/ddl/cockroachdb/lexar.go  | 4 ++++
 pkg/ddl/cockroachdb/parser.go | 2 +-
 pkg/ddl/mysql/lexar.go        | 8 ++++++++
 pkg/ddl/mysql/parser.go       | 2 +-
 pkg/ddl/postgres/lexar.go     | 4 ++++
 pkg/ddl/postgres/parser.go    | 2 +-
 pkg/ddl/spanner/lexar.go      | 4 ++++
 pkg/ddl/spanner/parser.go     | 2 +-
 8 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index 2899efe..62caa98 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -403,6 +403,10 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 			return l.input[position:]
 		}
 		if l.ch == quote {
+			if l.peekChar() == quote { // doubled quote
+				l.readChar()
+				continue
+			}
 			break
 		}
 	}
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 127aca4..117b705 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -24,7 +24,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index 1edea35..cb52806 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -426,7 +426,15 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 		if l.isEOF() {
 			return l.input[position:]
 		}
+		if l.ch == '\\' && quote != '`' { // escaped character
+			l.readChar()
+			continue
+		}
 		if l.ch == quote {
+			if l.peekChar() == quote { // doubled quote
+				l.readChar()
+				continue
+			}
 			break
 		}
 	}
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 14e5e09..7492320 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -23,7 +23,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 3b9738b..73b77d7 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -377,6 +377,10 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 			return l.input[position:]
 		}
 		if l.ch == quote {
+			if l.peekChar() == quote { // doubled quote
+				l.readChar()
+				continue
+			}
 			break
 		}
 	}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 907aca4..36a2d39 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -24,7 +24,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index d16fc83..86bcb20 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -382,6 +382,10 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 		if l.isEOF() {
 			return l.input[position:]
 		}
+		if l.ch == '\\' && quote != '`' { // escaped character
+			l.readChar()
+			continue
+		}
 		if l.ch == quote {
 			break
 		}
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 6dcdf81..6f6cc5d 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -23,7 +23,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
-- 
2.43.0


From f6f984c41d3b7a9b43a2bd4004be55a7e9103319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:07 +0000
Subject: [PATCH 16/31] fix: leave the token after USING to the caller and
 require the closing parenthesis of a table (cockroachdb)

---
 pkg/ddl/cockroachdb/parser.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 117b705..a146faf 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -182,8 +182,6 @@ LabelColumns:
 		case p.isCurrentToken(TOKEN_COMMA):
 			p.nextToken()
 			continue
-		case p.isCurrentToken(TOKEN_SEMICOLON):
-			break LabelColumns
 		case p.isCurrentToken(TOKEN_CLOSE_PAREN):
 			switch p.peekToken.Type { //nolint:exhaustive
 			case TOKEN_SEMICOLON, TOKEN_EOF:
@@ -254,7 +252,6 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 			return nil, apperr.Errorf(errFmtPrefix+"parseExpr: %w", err)
 		}
 		createIndexStmt.UsingPreColumns = using
-		p.nextToken() // current = (
 	}
 
 	if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
@@ -274,7 +271,6 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 			return nil, apperr.Errorf(errFmtPrefix+"parseExpr: %w", err)
 		}
 		createIndexStmt.UsingPostColumns = using
-		p.nextToken() // current = (
 	}
 
 	return createIndexStmt, nil
@@ -472,7 +468,7 @@ LabelAs:
 			}
 			using.With = &With{&Expr{with}}
 			continue
-		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_VIRTUAL:
+		case TOKEN_NOT, TOKEN_OPEN_PAREN, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_VIRTUAL, TOKEN_SEMICOLON, TOKEN_EOF:
 			break LabelAs
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
@@ -752,7 +748,6 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				return nil, apperr.Errorf("parseExpr: %w", err)
 			}
 			c.UsingPostColumns = using
-			p.nextToken() // current = (
 		}
 		return c, nil
 	default:
-- 
2.43.0


From 4e4a7c7d46153dd9760a50fd721b1237fd3be60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:19 +0000
Subject: [PATCH 17/31] fix: VARCHAR and CHARACTER VARYING are the same data
 type (postgres)

---
 pkg/ddl/postgres/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 36a2d39..98f6ba7 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -682,6 +682,9 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		p.nextToken() // current = VARYING
 		dataType.Name += " " + p.currentToken.Literal.String()
 		dataType.Type = TOKEN_CHARACTER_VARYING //diff:ignore-line-postgres-cockroach
+	case TOKEN_VARYING: // VARCHAR
+		dataType.Name = p.currentToken.Literal.String()
+		dataType.Type = TOKEN_CHARACTER_VARYING
 	default:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = p.currentToken.Type
-- 
2.43.0


From 6da5d1ebcabc5c09bef4ce840379ab8a16f964ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:40 +0000
Subject: [PATCH 18/31] fix: keep every unnamed constraint of a column

---
 pkg/ddl/cockroachdb/ddl_table.go | 19 +++++++++++++++++++
 pkg/ddl/cockroachdb/parser.go    |  4 ++--
 pkg/ddl/mysql/ddl_table.go       | 19 +++++++++++++++++++
 pkg/ddl/mysql/parser.go          |  4 ++--
 pkg/ddl/postgres/ddl_table.go    | 19 +++++++++++++++++++
 pkg/ddl/postgres/parser.go       |  4 ++--
 pkg/ddl/spanner/ddl_table.go     | 19 +++++++++++++++++++
 pkg/ddl/spanner/parser.go        |  4 ++--
 8 files changed, 84 insertions(+), 8 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index f41883f..d21455d 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -2,6 +2,7 @@ package cockroachdb
 
 import (
 	"sort" //diff:ignore-line-postgres-cockroach
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -41,6 +42,24 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// unusedName returns name, followed by a number if one of the constraints is already called that.
+func (constraints Constraints) unusedName(name string) *Ident {
+	unused := NewRawIdent(name)
+	for n := 1; constraints.has(unused); n++ {
+		unused = NewRawIdent(name + strconv.Itoa(n))
+	}
+	return unused
+}
+
+func (constraints Constraints) has(name *Ident) bool {
+	for i := range constraints {
+		if constraints[i].GetName().Name == name.Name {
+			return true
+		}
+	}
+	return false
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index a146faf..90966d1 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -550,7 +550,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    constraints.unusedName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -598,7 +598,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 128f3f8..47c1597 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -2,6 +2,7 @@ package mysql
 
 import (
 	"sort"
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -41,6 +42,24 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// unusedName returns name, followed by a number if one of the constraints is already called that.
+func (constraints Constraints) unusedName(name string) *Ident {
+	unused := NewRawIdent(name)
+	for n := 1; constraints.has(unused); n++ {
+		unused = NewRawIdent(name + strconv.Itoa(n))
+	}
+	return unused
+}
+
+func (constraints Constraints) has(name *Ident) bool {
+	for i := range constraints {
+		if constraints[i].GetName().Name == name.Name {
+			return true
+		}
+	}
+	return false
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 7492320..ed3aa1a 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -548,7 +548,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    constraints.unusedName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -588,7 +588,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index 070ca7b..996203f 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -1,6 +1,7 @@
 package postgres
 
 import (
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -29,6 +30,24 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// unusedName returns name, followed by a number if one of the constraints is already called that.
+func (constraints Constraints) unusedName(name string) *Ident {
+	unused := NewRawIdent(name)
+	for n := 1; constraints.has(unused); n++ {
+		unused = NewRawIdent(name + strconv.Itoa(n))
+	}
+	return unused
+}
+
+func (constraints Constraints) has(name *Ident) bool {
+	for i := range constraints {
+		if constraints[i].GetName().Name == name.Name {
+			return true
+		}
+	}
+	return false
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 98f6ba7..4401b96 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -447,7 +447,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    constraints.unusedName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -494,7 +494,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index 48e3f39..e5a5564 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -2,6 +2,7 @@ package spanner
 
 import (
 	//diff:ignore-line-postgres-cockroach
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -31,6 +32,24 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// unusedName returns name, followed by a number if one of the constraints is already called that.
+func (constraints Constraints) unusedName(name string) *Ident {
+	unused := NewRawIdent(name)
+	for n := 1; constraints.has(unused); n++ {
+		unused = NewRawIdent(name + strconv.Itoa(n))
+	}
+	return unused
+}
+
+func (constraints Constraints) has(name *Ident) bool {
+	for i := range constraints {
+		if constraints[i].GetName().Name == name.Name {
+			return true
+		}
+	}
+	return false
+}
+
 // ForeignKeyConstraint represents a FOREIGN KEY constraint.
 type ForeignKeyConstraint struct {
 	Name       *Ident
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 6f6cc5d..32696d1 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -588,7 +588,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    constraints.unusedName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -606,7 +606,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
-- 
2.43.0


From 828c79e0d45c6bdfcb7a7b87ae2b41ec7b5ba546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:38 +0000
Subject: [PATCH 19/31] fix: generate statements in source order on every run

---
 pkg/internal/lang/go/extract_source.go | 4 ++++
 pkg/internal/lang/go/parse.go          | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index 92af228..67af1d0 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -6,6 +6,7 @@ import (
 	"go/ast"
 	"go/token"
 	"regexp"
+	"sort"
 	"sync"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
@@ -86,5 +87,8 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 		return nil, apperr.Errorf("go-ddl-tag=%s: %w", config.DDLTagGo(), apperr.ErrDDLTagGoAnnotationNotFoundInSource)
 	}
 
+	// NOTE: ast.CommentMap is a map, so the order of iteration differs from run to run.
+	sort.Slice(ddlSrc, func(i, j int) bool { return ddlSrc[i].Position.Offset < ddlSrc[j].Position.Offset })
+
 	return ddlSrc, nil
 }
diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 71ff2a9..05d3457 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -221,7 +221,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		}
 	}
 
-	sort.Slice(stmts, func(i, j int) bool {
+	sort.SliceStable(stmts, func(i, j int) bool {
 		return fmt.Sprintf("%s:%09d", stmts[i].GetSourceFile(), stmts[i].GetSourceLine()) < fmt.Sprintf("%s:%09d", stmts[j].GetSourceFile(), stmts[j].GetSourceLine())
 	})
 
-- 
2.43.0


From 478ab04e0e3bbff3c4b78481f19202e16e1a18da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:43 +0000
Subject: [PATCH 20/31] fix: generate from structs with untagged, embedded and
 jointly declared fields

---
 pkg/internal/lang/go/parse.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 05d3457..f2e4d3f 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -7,6 +7,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"go/types"
 	"os"
 	"path/filepath"
 	"reflect"
@@ -156,7 +157,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 
 		// columns
 		if r.StructType != nil {
-			for _, field := range r.StructType.Fields.List {
+			for _, field := range taggedFields(r.StructType.Fields.List) {
 				column := &generator.CreateTableColumn{}
 
 				tag := reflect.StructTag(strings.Trim(field.Tag.Value, "`"))
@@ -232,6 +233,27 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 	return stmts, nil
 }
 
+// taggedFields returns the fields that have a tag, one for each name.
+func taggedFields(list []*ast.Field) []*ast.Field {
+	fields := make([]*ast.Field, 0, len(list))
+	for _, field := range list {
+		if field.Tag == nil {
+			// NOTE: ignore no-annotation fields
+			continue
+		}
+		names := field.Names
+		if len(names) == 0 {
+			// NOTE: an embedded field has the name of its type
+			name := types.ExprString(field.Type)
+			names = []*ast.Ident{ast.NewIdent(name[strings.LastIndexAny(name, "*.")+1:])}
+		}
+		for _, name := range names {
+			fields = append(fields, &ast.Field{Doc: field.Doc, Names: []*ast.Ident{name}, Type: field.Type, Tag: field.Tag, Comment: field.Comment})
+		}
+	}
+	return fields
+}
+
 func extractContainingCommentFromCommentGroup(commentGroup *ast.CommentGroup, sub string) *ast.Comment {
 	for _, commentLine := range commentGroup.List {
 		if strings.Contains(commentLine.Text, sub) {
-- 
2.43.0


From e869a15a6b1f6b6e4d13c851fd8deb9f190e74cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:57 +0000
Subject: [PATCH 21/31] fix: write block comments as SQL comments and read the
 annotations in them

---
 pkg/internal/lang/go/parse.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index f2e4d3f..a2d27d8 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -16,7 +16,6 @@ import (
 	"unicode"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
-	slicez "github.com/kunitsucom/util.go/slices"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	"github.com/kunitsucom/ddlctl/pkg/internal/config"
@@ -112,9 +111,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		createTableStmt.SourceLine = r.Position.Line
 
 		// CREATE TABLE (or INDEX) / CONSTRAINT / OPTIONS (from comments)
-		comments := slicez.Select(r.CommentGroup.List, func(_ int, comment *ast.Comment) string {
-			return strings.TrimLeftFunc(strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(comment.Text, "//"), "/*"), "*/"), unicode.IsSpace)
-		})
+		comments := commentLines(r.CommentGroup)
 		for _, comment := range comments {
 			logs.Debug.Printf("[COMMENT DETECTED]: %s:%d: %s", createTableStmt.SourceFile, createTableStmt.SourceLine, comment)
 
@@ -233,6 +230,21 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 	return stmts, nil
 }
 
+// commentLines returns the lines of a comment group without the comment markers.
+func commentLines(commentGroup *ast.CommentGroup) []string {
+	lines := make([]string, 0, len(commentGroup.List))
+	for _, comment := range commentGroup.List {
+		text := strings.TrimPrefix(comment.Text, "//")
+		if strings.HasPrefix(comment.Text, "/*") {
+			text = strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(comment.Text, "/*"), "*/"))
+		}
+		for _, line := range strings.Split(text, "\n") {
+			lines = append(lines, strings.TrimLeftFunc(line, unicode.IsSpace))
+		}
+	}
+	return lines
+}
+
 // taggedFields returns the fields that have a tag, one for each name.
 func taggedFields(list []*ast.Field) []*ast.Field {
 	fields := make([]*ast.Field, 0, len(list))
-- 
2.43.0


From 7f20faaec58ba1fda287d2406ffe87d42a26f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 22/31] fix: do not reorder the table options when comparing
 them

---
 pkg/ddl/mysql/ddl_table.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 47c1597..31b00c4 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -437,14 +437,7 @@ func (options Options) String() string {
 func (options Options) StringForDiff() string {
 	var str string
 
-	// NOTE: Maybe unnecessary?
-	opts := make(Options, len(options))
-	copy(opts, options)
-	sort.Slice(options, func(left, right int) bool {
-		return opts[left].Name < opts[right].Name
-	})
-
-	for i, v := range opts {
+	for i, v := range options {
 		if i != 0 {
 			str += " "
 		}
-- 
2.43.0


From 5ce997c64d146604b6fc4149d5224bfa7663dd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:29 +0000
Subject: [PATCH 23/31] fix: show only the columns of each index of a Spanner
 table

The columns of every index of the table were listed, once for each index.
---
 pkg/show/spanner/show_create_all_tables.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index f72f9ed..b358530 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -128,8 +128,10 @@ INNER JOIN
     INFORMATION_SCHEMA.INDEX_COLUMNS AS ic
 ON
     i.TABLE_NAME = ic.TABLE_NAME
+    AND i.INDEX_NAME = ic.INDEX_NAME
 WHERE
     i.TABLE_NAME = ? 
+    AND i.INDEX_NAME = ? 
     AND i.INDEX_TYPE != "PRIMARY_KEY" 
     AND ic.INDEX_NAME != "PRIMARY_KEY" 
 ORDER BY
@@ -268,7 +270,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 
 		for _, indexName := range indexNames {
 			indexes := make([]*informationSchemaIndex, 0)
-			if err := dbz.QueryContext(ctx, &indexes, queryShowIndexes, tbl.TableName); err != nil {
+			if err := dbz.QueryContext(ctx, &indexes, queryShowIndexes, tbl.TableName, indexName.IndexName); err != nil {
 				return "", apperr.Errorf("dbz.QueryContext: %w", err)
 			}
 
-- 
2.43.0


From 86f823aa9f0d587f1cb5245c151edadaaa85f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:29 +0000
Subject: [PATCH 24/31] fix: show the descending order of key and index columns
 of Spanner tables

---
 pkg/show/spanner/show_create_all_tables.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index b358530..df379be 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -239,6 +239,9 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			primaryKeyColumnsLastIndex := len(primaryKeyColumns) - 1
 			for i, pk := range primaryKeyColumns {
 				d += pk.ColumnName
+				if pk.ColumnOrdering == "DESC" {
+					d += " DESC"
+				}
 				if i != primaryKeyColumnsLastIndex {
 					d += ", "
 				}
@@ -283,6 +286,9 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			indexesLastIndex := len(indexes) - 1
 			for i, idx := range indexes {
 				d += idx.ColumnName
+				if idx.ColumnOrdering == "DESC" {
+					d += " DESC"
+				}
 				if i != indexesLastIndex {
 					d += ", "
 				}
-- 
2.43.0


From 5a381be3c29c84c31931303547dd591001b3c262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:29 +0000
Subject: [PATCH 25/31] fix: compare TABLE_SCHEMA with the name of the database
 as a string

---
 pkg/show/mysql/show_create_all_tables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/show/mysql/show_create_all_tables.go b/pkg/show/mysql/show_create_all_tables.go
index a78e141..49f1cbe 100644
--- a/pkg/show/mysql/show_create_all_tables.go
+++ b/pkg/show/mysql/show_create_all_tables.go
@@ -42,7 +42,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 
 	databaseQuoted := func() string {
 		if cfg.database != "" {
-			return fmt.Sprintf("`%s`", cfg.database)
+			return fmt.Sprintf("'%s'", cfg.database)
 		}
 		return "database()"
 	}()
-- 
2.43.0


From 8937ce6c712ab75cb8dc8e49df11fcf4743c930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:29 +0000
Subject: [PATCH 26/31] fix: show only tables, not views, of a MySQL database

SHOW CREATE TABLE of a view has other columns, so that reading them failed.
---
 pkg/show/mysql/show_create_all_tables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/show/mysql/show_create_all_tables.go b/pkg/show/mysql/show_create_all_tables.go
index 49f1cbe..ba5fa43 100644
--- a/pkg/show/mysql/show_create_all_tables.go
+++ b/pkg/show/mysql/show_create_all_tables.go
@@ -52,7 +52,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 	}
 
 	tableNames := new([]*TableName)
-	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_SCHEMA = " + databaseQuoted
+	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_TYPE = 'BASE TABLE' AND TABLE_SCHEMA = " + databaseQuoted
 	if err := dbz.QueryContext(ctx, tableNames, tableNamesQuery); err != nil {
 		return "", apperr.Errorf("dbz.QueryContext: q=%s: %w", tableNamesQuery, err)
 	}
-- 
2.43.0


From aa83c695df20ee3b6b7e1fb3907b070ca21a6161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:16 +0000
Subject: [PATCH 27/31] fix: show and generate report missing arguments instead
 of panicking

---
 pkg/apperr/errors.go                   | 1 +
 pkg/ddlctl/generate/ddlctl_generate.go | 5 +++++
 pkg/ddlctl/show/ddlctl_show.go         | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/pkg/apperr/errors.go b/pkg/apperr/errors.go
index ea6d128..0a59680 100644
--- a/pkg/apperr/errors.go
+++ b/pkg/apperr/errors.go
@@ -10,6 +10,7 @@ var (
 	ErrCanceled                           = errors.New("canceled")
 	ErrDialectIsEmpty                     = errors.New("dialect is empty")
 	ErrDDLTagGoAnnotationNotFoundInSource = errors.New("go-ddl-tag annotation not found in source")
+	ErrOneArgumentRequired                = errors.New("one argument required")
 	ErrTwoArgumentsRequired               = errors.New("two arguments required")
 	ErrBothArgumentsIsDSN                 = errors.New("both arguments is dsn")
 	ErrBothArgumentsAreNotDSNOrSQLFile    = errors.New("both arguments are not dsn or sql file")
diff --git a/pkg/ddlctl/generate/ddlctl_generate.go b/pkg/ddlctl/generate/ddlctl_generate.go
index ad272d5..50e9e02 100644
--- a/pkg/ddlctl/generate/ddlctl_generate.go
+++ b/pkg/ddlctl/generate/ddlctl_generate.go
@@ -22,6 +22,11 @@ func Command(ctx context.Context, args []string) error {
 		return apperr.Errorf("config.Load: %w", err)
 	}
 
+	const sourceAndDestination = 2
+	if len(args) != sourceAndDestination {
+		return apperr.Errorf("args=%v: %w", args, apperr.ErrTwoArgumentsRequired)
+	}
+
 	dialect := config.Dialect()
 	language := config.Language()
 	src := args[0]
diff --git a/pkg/ddlctl/show/ddlctl_show.go b/pkg/ddlctl/show/ddlctl_show.go
index 3f5bfc1..f8727f6 100644
--- a/pkg/ddlctl/show/ddlctl_show.go
+++ b/pkg/ddlctl/show/ddlctl_show.go
@@ -26,6 +26,10 @@ func Command(ctx context.Context, args []string) error {
 		return apperr.Errorf("config.Load: %w", err)
 	}
 
+	if len(args) != 1 {
+		return apperr.Errorf("args=%v: %w", args, apperr.ErrOneArgumentRequired)
+	}
+
 	ddl, err := Show(ctx, config.Dialect(), args[0])
 	if err != nil {
 		return apperr.Errorf("diff: %w", err)
-- 
2.43.0


From 3b98129665fbb310344bcf6d21294e358b92ffa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:20 +0000
Subject: [PATCH 28/31] fix: generate keeps the destination as it was unless
 the DDL is complete

---
 pkg/ddlctl/generate/ddlctl_generate.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/ddlctl/generate/ddlctl_generate.go b/pkg/ddlctl/generate/ddlctl_generate.go
index 50e9e02..b9eb111 100644
--- a/pkg/ddlctl/generate/ddlctl_generate.go
+++ b/pkg/ddlctl/generate/ddlctl_generate.go
@@ -1,6 +1,7 @@
 package generate
 
 import (
+	"bytes"
 	"context"
 	"io"
 	"os"
@@ -41,14 +42,15 @@ func Command(ctx context.Context, args []string) error {
 		dst = filepath.Join(dst, "ddlctl.gen.sql")
 	}
 
-	const rw_r__r__ = 0o644 //nolint:revive,stylecheck
-	dstFile, err := os.OpenFile(dst, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, rw_r__r__)
-	if err != nil {
-		return apperr.Errorf("os.OpenFile: %w", err)
+	// NOTE: do not truncate the destination before the DDL is complete.
+	buf := new(bytes.Buffer)
+	if err := Generate(ctx, buf, src, dialect, language); err != nil {
+		return apperr.Errorf("fprint: %w", err)
 	}
 
-	if err := Generate(ctx, dstFile, src, dialect, language); err != nil {
-		return apperr.Errorf("fprint: %w", err)
+	const rw_r__r__ = 0o644 //nolint:revive,stylecheck
+	if err := os.WriteFile(dst, buf.Bytes(), rw_r__r__); err != nil {
+		return apperr.Errorf("os.WriteFile: %w", err)
 	}
 	return nil
 }
-- 
2.43.0


From 4a7baff3314886c5c041eff842c2524e19559ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:33 +0000
Subject: [PATCH 29/31] fix: comparing two missing tables reports no difference
 instead of panicking

---
 pkg/ddl/cockroachdb/diff_create_table.go | 4 +++-
 pkg/ddl/mysql/diff_create_table.go       | 4 +++-
 pkg/ddl/postgres/diff_create_table.go    | 4 +++-
 pkg/ddl/spanner/diff_create_table.go     | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index 3374091..9de017f 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -54,7 +54,9 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			Name: before.Name,
 		})
 		return result, nil
-	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
+	case before == nil && after == nil:
+		return nil, apperr.Errorf("before: nil, after: nil: %w", ddl.ErrNoDifference)
+	case reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, apperr.Errorf("before: %s, after: %s: %w", before.GetNameForDiff(), after.GetNameForDiff(), ddl.ErrNoDifference)
 	}
 
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 4b6a8d8..0e0ae9d 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -54,7 +54,9 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			Name: before.Name,
 		})
 		return result, nil
-	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
+	case before == nil && after == nil:
+		return nil, apperr.Errorf("before: nil, after: nil: %w", ddl.ErrNoDifference)
+	case reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, apperr.Errorf("before: %s, after: %s: %w", before.GetNameForDiff(), after.GetNameForDiff(), ddl.ErrNoDifference)
 	}
 
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 15695ca..2254610 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -53,7 +53,9 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			Name: before.Name,
 		})
 		return result, nil
-	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
+	case before == nil && after == nil:
+		return nil, apperr.Errorf("before: nil, after: nil: %w", ddl.ErrNoDifference)
+	case reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, apperr.Errorf("before: %s, after: %s: %w", before.GetNameForDiff(), after.GetNameForDiff(), ddl.ErrNoDifference)
 	}
 
diff --git a/pkg/ddl/spanner/diff_create_table.go b/pkg/ddl/spanner/diff_create_table.go
index 160e7e5..698bf88 100644
--- a/pkg/ddl/spanner/diff_create_table.go
+++ b/pkg/ddl/spanner/diff_create_table.go
@@ -52,6 +52,8 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			Name: before.Name,
 		})
 		return result, nil
+	case before == nil && after == nil:
+		return nil, apperr.Errorf("before: nil, after: nil: %w", ddl.ErrNoDifference)
 	case before.Options.StringForDiff() != after.Options.StringForDiff():
 		result.Stmts = append(result.Stmts,
 			&DropTableStmt{
@@ -61,7 +63,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			after,
 		)
 		return result, nil
-	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
+	case reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, apperr.Errorf("before: %s, after: %s: %w", before.GetNameForDiff(), after.GetNameForDiff(), ddl.ErrNoDifference)
 	}
 
-- 
2.43.0


From 8f3183431aaafcaf00b8e1a0233e2b9f9151d684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:16 +0000
Subject: [PATCH 30/31] fix: a generated foreign key name holds the column
 names only, not their sort order

---
 pkg/ddl/cockroachdb/parser.go | 2 +-
 pkg/ddl/mysql/parser.go       | 2 +-
 pkg/ddl/postgres/parser.go    | 2 +-
 pkg/ddl/spanner/parser.go     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 90966d1..266f065 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -705,7 +705,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index ed3aa1a..f27f9f5 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -687,7 +687,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 4401b96..b2f7c82 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -601,7 +601,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 32696d1..50acca0 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -670,7 +670,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
-- 
2.43.0


From 750d7872529639c21416f4423176b388810ac7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:42 +0000
Subject: [PATCH 31/31] fix: an unnamed table constraint does not replace
 another one that got the same generated name

---
 pkg/ddl/cockroachdb/parser.go | 6 +++---
 pkg/ddl/mysql/parser.go       | 8 ++++----
 pkg/ddl/postgres/parser.go    | 6 +++---
 pkg/ddl/spanner/parser.go     | 8 ++++----
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 266f065..cb9fdb1 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -174,7 +174,7 @@ LabelColumns:
 				}
 			}
 		case isConstraint(p.currentToken.Type):
-			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name, createTableStmt.Constraints)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
@@ -620,7 +620,7 @@ LabelConstraints:
 }
 
 //nolint:funlen,cyclop,gocognit
-func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //nolint:ireturn
+func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints) (Constraint, error) { //nolint:ireturn
 	var constraintName *Ident
 	if p.isCurrentToken(TOKEN_CONSTRAINT) {
 		p.nextToken() // current = constraint_name
@@ -708,7 +708,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = constraints.unusedName(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index f27f9f5..794769f 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -173,7 +173,7 @@ LabelColumns:
 				}
 			}
 		case isConstraint(p.currentToken.Type):
-			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name, createTableStmt.Constraints)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
@@ -610,7 +610,7 @@ LabelConstraints:
 }
 
 //nolint:funlen,cyclop,gocognit
-func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //nolint:ireturn
+func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints) (Constraint, error) { //nolint:ireturn
 	var constraintName *Ident
 	if p.isCurrentToken(TOKEN_CONSTRAINT) {
 		p.nextToken() // current = constraint_name
@@ -690,7 +690,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = constraints.unusedName(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -737,7 +737,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		}
 		if constraintName == nil {
 			// TODO: handle CONSTRAINT name
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_chk")
+			constraintName = constraints.unusedName(tableName.StringForDiff() + "_chk")
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index b2f7c82..5beb7f5 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -174,7 +174,7 @@ LabelColumns:
 				}
 			}
 		case isConstraint(p.currentToken.Type):
-			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name, createTableStmt.Constraints)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
@@ -516,7 +516,7 @@ LabelConstraints:
 }
 
 //nolint:funlen,cyclop,gocognit
-func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //nolint:ireturn
+func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints) (Constraint, error) { //nolint:ireturn
 	var constraintName *Ident
 	if p.isCurrentToken(TOKEN_CONSTRAINT) {
 		p.nextToken() // current = constraint_name
@@ -604,7 +604,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = constraints.unusedName(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 50acca0..42cd72b 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -173,7 +173,7 @@ LabelColumns:
 				}
 			}
 		case isConstraint(p.currentToken.Type):
-			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name, createTableStmt.Constraints)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
@@ -628,7 +628,7 @@ LabelConstraints:
 }
 
 //nolint:funlen,cyclop,gocognit
-func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //nolint:ireturn
+func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints) (Constraint, error) { //nolint:ireturn
 	var constraintName *Ident
 	if p.isCurrentToken(TOKEN_CONSTRAINT) {
 		p.nextToken() // current = constraint_name
@@ -673,7 +673,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = constraints.unusedName(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -694,7 +694,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+			constraintName = constraints.unusedName(tableName.StringForDiff() + "_check")
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
-- 
2.43.0


From 659f85935bcc82e447da0a3c22b2b023f32e03db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 01/27] fix: convert complete number literals in filter
 expressions

The sign and leading zero of "-0.5" were lost and the literal became the
integer 0, "-0e1" was rejected, integers were rounded through f64 and (in
the pest crate) "1e-2" was truncated to 0.
---
 crates/jsonpath_rfc9535_iter/src/parser.rs    | 55 ++++---------------
 .../jsonpath_rfc9535_locations/src/parser.rs  | 55 ++++---------------
 crates/jsonpath_rfc9535_pest/src/parser.rs    | 55 ++++---------------
 .../src/parser.rs                             | 55 ++++---------------
 crates/jsonpath_rfc9535_serde/src/parser.rs   | 55 ++++---------------
 .../src/parser.rs                             | 55 ++++---------------
 6 files changed, 60 insertions(+), 270 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index 9b77877..db5ef4f 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -282,54 +282,19 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
-
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        // The grammar drops the leading "-0" of literals like "-0.5" from the inner
+        // pairs, so always convert the complete literal.
+        let literal = expr.as_str();
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
+        if let Ok(value) = literal.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+        Ok(FilterExpression::Float {
+            value: literal
+                .parse::<f64>()
+                .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?,
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index 9b77877..db5ef4f 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -282,54 +282,19 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
-
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        // The grammar drops the leading "-0" of literals like "-0.5" from the inner
+        // pairs, so always convert the complete literal.
+        let literal = expr.as_str();
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
+        if let Ok(value) = literal.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+        Ok(FilterExpression::Float {
+            value: literal
+                .parse::<f64>()
+                .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?,
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 1497595..03895e4 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -334,54 +334,19 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
-
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.starts_with('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        // The grammar drops the leading "-0" of literals like "-0.5" from the inner
+        // pairs, so always convert the complete literal.
+        let literal = expr.as_str();
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.starts_with('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
+        if let Ok(value) = literal.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+        Ok(FilterExpression::Float {
+            value: literal
+                .parse::<f64>()
+                .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?,
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 4cd4dc1..487f330 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -353,54 +353,19 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
-
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        // The grammar drops the leading "-0" of literals like "-0.5" from the inner
+        // pairs, so always convert the complete literal.
+        let literal = expr.as_str();
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
+        if let Ok(value) = literal.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+        Ok(FilterExpression::Float {
+            value: literal
+                .parse::<f64>()
+                .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?,
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index 58a0513..8c7bd1c 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -279,54 +279,19 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
-
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        // The grammar drops the leading "-0" of literals like "-0.5" from the inner
+        // pairs, so always convert the complete literal.
+        let literal = expr.as_str();
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
+        if let Ok(value) = literal.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+        Ok(FilterExpression::Float {
+            value: literal
+                .parse::<f64>()
+                .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?,
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index b12afa0..5ba71db 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -301,54 +301,19 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
-
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        // The grammar drops the leading "-0" of literals like "-0.5" from the inner
+        // pairs, so always convert the complete literal.
+        let literal = expr.as_str();
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
+        if let Ok(value) = literal.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+        Ok(FilterExpression::Float {
+            value: literal
+                .parse::<f64>()
+                .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?,
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-- 
2.43.0


From 431d7477779f77d7df98e5f6b3ff9d600d5ddca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 02/27] fix: do not panic on integers greater than i64::MAX in
 filtered data

---
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 9 ++++-----
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 7 ++++---
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 9 ++++-----
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 7 ++++---
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index c46c11c..9d4c386 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -254,12 +254,11 @@ impl<'v> FilterExpressionResult<'v> {
             Value::Bool(v) => FilterExpressionResult::Bool(*v),
             Value::Null => FilterExpressionResult::Null,
             Value::Number(n) => {
-                if n.is_f64() {
-                    FilterExpressionResult::Float(n.as_f64().unwrap())
-                } else if n.is_i64() {
-                    FilterExpressionResult::Int(n.as_i64().unwrap())
+                if let Some(i) = n.as_i64() {
+                    FilterExpressionResult::Int(i)
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap()) // XXX:
+                    // a float, or an integer that does not fit in an i64
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 28b75f3..a0e7cd6 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -251,10 +251,11 @@ impl<'a> FilterExpressionResult<'a> {
             Value::Bool(v) => FilterExpressionResult::Bool(*v),
             Value::Null => FilterExpressionResult::Null,
             Value::Number(n) => {
-                if n.is_f64() {
-                    FilterExpressionResult::Float(n.as_f64().unwrap())
+                if let Some(i) = n.as_i64() {
+                    FilterExpressionResult::Int(i)
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap())
+                    // a float, or an integer that does not fit in an i64
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index f2df9f5..09a44ed 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -73,12 +73,11 @@ impl<'a> FilterExpressionResult<'a> {
             Value::Bool(v) => FilterExpressionResult::Bool(*v),
             Value::Null => FilterExpressionResult::Null,
             Value::Number(n) => {
-                if n.is_f64() {
-                    FilterExpressionResult::Float(n.as_f64().unwrap())
-                } else if n.is_i64() {
-                    FilterExpressionResult::Int(n.as_i64().unwrap())
+                if let Some(i) = n.as_i64() {
+                    FilterExpressionResult::Int(i)
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap()) // XXX:
+                    // a float, or an integer that does not fit in an i64
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 28b75f3..a0e7cd6 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -251,10 +251,11 @@ impl<'a> FilterExpressionResult<'a> {
             Value::Bool(v) => FilterExpressionResult::Bool(*v),
             Value::Null => FilterExpressionResult::Null,
             Value::Number(n) => {
-                if n.is_f64() {
-                    FilterExpressionResult::Float(n.as_f64().unwrap())
+                if let Some(i) = n.as_i64() {
+                    FilterExpressionResult::Int(i)
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap())
+                    // a float, or an integer that does not fit in an i64
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
-- 
2.43.0


From 4d209c5c98e00ab6320a2c36216c53094698f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 03/27] fix: select nothing when a slice starts outside of the
 array

RFC 9535 section 2.3.4.2.2 clamps the start of a slice to the array length
when step is positive, and to -1 when step is negative.
---
 crates/jsonpath_rfc9535_iter/src/selector.rs          | 11 +++++++++--
 crates/jsonpath_rfc9535_locations/src/selector.rs     |  4 ++--
 crates/jsonpath_rfc9535_serde/src/ast.rs              | 11 +++++++++--
 .../src/selector.rs                                   |  4 ++--
 4 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/selector.rs b/crates/jsonpath_rfc9535_iter/src/selector.rs
index 594295c..57092fc 100644
--- a/crates/jsonpath_rfc9535_iter/src/selector.rs
+++ b/crates/jsonpath_rfc9535_iter/src/selector.rs
@@ -74,9 +74,16 @@ pub fn slice<'a>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(array_length + i, 0)
+                cmp::max(array_length + i, if n_step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i, array_length - 1)
+                cmp::min(
+                    i,
+                    if n_step < 0 {
+                        array_length - 1
+                    } else {
+                        array_length
+                    },
+                )
             }
         }
         None => {
diff --git a/crates/jsonpath_rfc9535_locations/src/selector.rs b/crates/jsonpath_rfc9535_locations/src/selector.rs
index 9e3c6bf..645a118 100644
--- a/crates/jsonpath_rfc9535_locations/src/selector.rs
+++ b/crates/jsonpath_rfc9535_locations/src/selector.rs
@@ -149,9 +149,9 @@ fn slice<'v>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(len + i as i128, 0)
+                cmp::max(len + i as i128, if step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i as i128, len - 1)
+                cmp::min(i as i128, if step < 0 { len - 1 } else { len })
             }
         }
         None => {
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 09a44ed..495e674 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -704,9 +704,16 @@ fn slice<'a>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(array_length + i, 0)
+                cmp::max(array_length + i, if n_step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i, array_length - 1)
+                cmp::min(
+                    i,
+                    if n_step < 0 {
+                        array_length - 1
+                    } else {
+                        array_length
+                    },
+                )
             }
         }
         None => {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
index 4567474..7455976 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
@@ -186,9 +186,9 @@ fn slice<'v>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(len + i as i128, 0)
+                cmp::max(len + i as i128, if step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i as i128, len - 1)
+                cmp::min(i as i128, if step < 0 { len - 1 } else { len })
             }
         }
         None => {
-- 
2.43.0


From d3f64177ca76d4c759b83fa6ede5c63a025e403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 04/27] fix: compare numbers nested in arrays and objects by
 value

[1] and [1.0] are equal according to RFC 9535 section 2.3.5.2.2.
---
 crates/jsonpath_rfc9535_iter/src/filter.rs    | 23 +++++++++++++++++--
 .../jsonpath_rfc9535_locations/src/filter.rs  | 23 +++++++++++++++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs      | 23 +++++++++++++++++--
 .../src/filter.rs                             | 23 +++++++++++++++++--
 4 files changed, 84 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 9d4c386..ac3ac44 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -349,12 +349,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => json_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => json_eq(l, r),
         _ => false,
     }
 }
 
+/// Structural equality of JSON values, comparing numbers by their mathematical value.
+fn json_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r.iter()).all(|(l, r)| json_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| json_eq(l, r)))
+        }
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index a0e7cd6..aee3f36 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -346,12 +346,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => json_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => json_eq(l, r),
         _ => false,
     }
 }
 
+/// Structural equality of JSON values, comparing numbers by their mathematical value.
+fn json_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r.iter()).all(|(l, r)| json_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| json_eq(l, r)))
+        }
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 495e674..a6472bc 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -841,12 +841,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => json_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => json_eq(l, r),
         _ => false,
     }
 }
 
+/// Structural equality of JSON values, comparing numbers by their mathematical value.
+fn json_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r.iter()).all(|(l, r)| json_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| json_eq(l, r)))
+        }
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index a0e7cd6..aee3f36 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -346,12 +346,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => json_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => json_eq(l, r),
         _ => false,
     }
 }
 
+/// Structural equality of JSON values, comparing numbers by their mathematical value.
+fn json_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r.iter()).all(|(l, r)| json_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| json_eq(l, r)))
+        }
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
-- 
2.43.0


From 3ba0cbba6bdfa3bf67f428c27d65d81b6c8dee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 05/27] fix: resolve $ against the query argument in nested
 filter queries

In `$[?@[?@.a == $.b]]` the inner `$` was the element selected by the outer
filter, rather than the root of the query argument.
---
 crates/jsonpath_rfc9535_iter/src/filter.rs     |  2 +-
 crates/jsonpath_rfc9535_iter/src/iter.rs       | 12 +++++++++++-
 .../jsonpath_rfc9535_locations/src/filter.rs   |  2 +-
 crates/jsonpath_rfc9535_locations/src/query.rs | 16 +++++++++++++---
 crates/jsonpath_rfc9535_serde/src/ast.rs       | 18 +++++++++++++-----
 .../src/filter.rs                              |  2 +-
 .../src/query.rs                               | 16 +++++++++++++---
 7 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index ac3ac44..dc5b2f4 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -111,7 +111,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => FilterExpressionResult::Nodes(
-                QueryIter::new(env, current, *query.clone()).collect(),
+                QueryIter::from_current(env, root, current, *query.clone()).collect(),
             ),
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(QueryIter::new(env, root, *query.clone()).collect())
diff --git a/crates/jsonpath_rfc9535_iter/src/iter.rs b/crates/jsonpath_rfc9535_iter/src/iter.rs
index 795bbe6..ae1ae4c 100644
--- a/crates/jsonpath_rfc9535_iter/src/iter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/iter.rs
@@ -29,10 +29,20 @@ impl<'v> Iterator for QueryIter<'v> {
 
 impl<'v> QueryIter<'v> {
     pub fn new(env: &'static Environment, root: &'v Value, query: Query) -> Self {
+        Self::from_current(env, root, root, query)
+    }
+
+    /// Apply `query` to `current`, where `root` is the query argument.
+    pub(crate) fn from_current(
+        env: &'static Environment,
+        root: &'v Value,
+        current: &'v Value,
+        query: Query,
+    ) -> Self {
         let init = SegmentIter {
             selectors: vec![].into_iter(),
             it: Box::new(iter::once(Rc::new(Node {
-                value: root,
+                value: current,
                 location: String::from("$"),
             }))),
         };
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index aee3f36..85b73da 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -109,7 +109,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => {
-                FilterExpressionResult::Nodes(query.find(current, env))
+                FilterExpressionResult::Nodes(query.resolve(current, env, root))
             }
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(query.find(root, env))
diff --git a/crates/jsonpath_rfc9535_locations/src/query.rs b/crates/jsonpath_rfc9535_locations/src/query.rs
index 0f2c651..f5fe194 100644
--- a/crates/jsonpath_rfc9535_locations/src/query.rs
+++ b/crates/jsonpath_rfc9535_locations/src/query.rs
@@ -32,15 +32,25 @@ impl Query {
     }
 
     pub fn find<'v>(&self, value: &'v Value, env: &'static Environment) -> NodeList<'v> {
-        let root_node = Node {
+        self.resolve(value, env, value)
+    }
+
+    /// Apply this query to `value`, where `root` is the query argument.
+    pub(crate) fn resolve<'v>(
+        &self,
+        value: &'v Value,
+        env: &'static Environment,
+        root: &'v Value,
+    ) -> NodeList<'v> {
+        let start_node = Node {
             value,
             location: ConsList::new(),
         };
 
         self.segments
             .iter()
-            .fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, env, value)
+            .fold(vec![start_node], |nodes, segment| {
+                segment.resolve(nodes, env, root)
             })
     }
 
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index a6472bc..4f46646 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -107,16 +107,24 @@ impl Query {
         env: &'b Environment,
     ) -> Result<NodeList<'a>, JSONPathError> {
         let context = QueryContext { root: value, env };
+        self.resolve(value, &context)
+    }
 
-        let root_node = Node {
+    // Apply this query to `value`, where `value` is not necessarily the query argument.
+    fn resolve<'a>(
+        &self,
+        value: &'a Value,
+        context: &QueryContext,
+    ) -> Result<NodeList<'a>, JSONPathError> {
+        let start_node = Node {
             value,
             location: String::from("$"),
         };
 
         self.segments
             .iter()
-            .try_fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, &context)
+            .try_fold(vec![start_node], |nodes, segment| {
+                segment.resolve(nodes, context)
             })
     }
 
@@ -582,10 +590,10 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => Ok(FilterExpressionResult::Nodes(
-                query.find(current, context.env)?,
+                query.resolve(current, context)?,
             )),
             FilterExpression::RootQuery { query } => Ok(FilterExpressionResult::Nodes(
-                query.find(context.root, context.env)?,
+                query.resolve(context.root, context)?,
             )),
             FilterExpression::Function { name, args } => {
                 let fn_ext = context.env.function_register.get(name).ok_or_else(|| {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index aee3f36..85b73da 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -109,7 +109,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => {
-                FilterExpressionResult::Nodes(query.find(current, env))
+                FilterExpressionResult::Nodes(query.resolve(current, env, root))
             }
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(query.find(root, env))
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/query.rs b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
index 0f2c651..f5fe194 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/query.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
@@ -32,15 +32,25 @@ impl Query {
     }
 
     pub fn find<'v>(&self, value: &'v Value, env: &'static Environment) -> NodeList<'v> {
-        let root_node = Node {
+        self.resolve(value, env, value)
+    }
+
+    /// Apply this query to `value`, where `root` is the query argument.
+    pub(crate) fn resolve<'v>(
+        &self,
+        value: &'v Value,
+        env: &'static Environment,
+        root: &'v Value,
+    ) -> NodeList<'v> {
+        let start_node = Node {
             value,
             location: ConsList::new(),
         };
 
         self.segments
             .iter()
-            .fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, env, value)
+            .fold(vec![start_node], |nodes, segment| {
+                segment.resolve(nodes, env, root)
             })
     }
 
-- 
2.43.0


From d5791a8d374504b821cd57dd9eede8ac7348172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 06/27] fix: always match the entire string with match()

Patterns starting with "^" or ending with "$", including an escaped "\\$",
were not anchored at the other end.
---
 crates/jsonpath_rfc9535_iter/src/standard_functions.rs      | 6 +-----
 crates/jsonpath_rfc9535_locations/src/standard_functions.rs | 6 +-----
 crates/jsonpath_rfc9535_serde/src/standard_functions.rs     | 6 +-----
 .../src/standard_functions.rs                               | 6 +-----
 4 files changed, 4 insertions(+), 20 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
index 754ca17..99b6807 100644
--- a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
@@ -263,9 +263,5 @@ fn map_regex(pattern: &str) -> String {
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    map_regex(&format!("^(?:{})$", pattern))
 }
diff --git a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
index b756c33..6b5ef64 100644
--- a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
@@ -263,9 +263,5 @@ fn map_regex(pattern: &str) -> String {
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    map_regex(&format!("^(?:{})$", pattern))
 }
diff --git a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
index db7f233..eca18e4 100644
--- a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
@@ -263,9 +263,5 @@ fn map_regex(pattern: &str) -> String {
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    map_regex(&format!("^(?:{})$", pattern))
 }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
index b756c33..6b5ef64 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
@@ -263,9 +263,5 @@ fn map_regex(pattern: &str) -> String {
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    map_regex(&format!("^(?:{})$", pattern))
 }
-- 
2.43.0


From faadb2673bcd7f9bc4ee2163f6f2c2f038fa5001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 07/27] fix: do not match a carriage return with "." in match()
 and search()

A dot is everything but "\\n" and "\\r" in an I-Regexp (RFC 9485).
---
 .../src/standard_functions.rs                 | 41 ++-----------------
 .../src/standard_functions.rs                 | 41 ++-----------------
 .../src/standard_functions.rs                 | 41 ++-----------------
 .../src/standard_functions.rs                 | 41 ++-----------------
 4 files changed, 12 insertions(+), 152 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
index 99b6807..b4a7208 100644
--- a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
@@ -221,45 +221,10 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map an i-regexp pattern to a pattern for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    // With the R flag, a dot matches neither "\n" nor "\r".
+    format!("(?R){}", pattern)
 }
 
 fn full_match(pattern: &str) -> String {
diff --git a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
index 6b5ef64..8d310b7 100644
--- a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
@@ -221,45 +221,10 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map an i-regexp pattern to a pattern for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    // With the R flag, a dot matches neither "\n" nor "\r".
+    format!("(?R){}", pattern)
 }
 
 fn full_match(pattern: &str) -> String {
diff --git a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
index eca18e4..882a2e6 100644
--- a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
@@ -221,45 +221,10 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map an i-regexp pattern to a pattern for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    // With the R flag, a dot matches neither "\n" nor "\r".
+    format!("(?R){}", pattern)
 }
 
 fn full_match(pattern: &str) -> String {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
index 6b5ef64..8d310b7 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
@@ -221,45 +221,10 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map an i-regexp pattern to a pattern for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    // With the R flag, a dot matches neither "\n" nor "\r".
+    format!("(?R){}", pattern)
 }
 
 fn full_match(pattern: &str) -> String {
-- 
2.43.0


From ba3e59b678349bcc7c3d2735d1a86bfa1c5b4adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 08/27] fix: escape member names in normalized paths

Quotes, backslashes and control characters were copied to normalized paths
without the escapes required by RFC 9535 section 2.7.
---
 crates/jsonpath_rfc9535_iter/src/node.rs      | 23 ++++++++++++++++++-
 crates/jsonpath_rfc9535_locations/src/node.rs | 23 ++++++++++++++++++-
 crates/jsonpath_rfc9535_serde/src/ast.rs      | 23 ++++++++++++++++++-
 .../src/node.rs                               | 23 ++++++++++++++++++-
 4 files changed, 88 insertions(+), 4 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/node.rs b/crates/jsonpath_rfc9535_iter/src/node.rs
index 9c523f2..0ba07e8 100644
--- a/crates/jsonpath_rfc9535_iter/src/node.rs
+++ b/crates/jsonpath_rfc9535_iter/src/node.rs
@@ -12,7 +12,7 @@ impl<'a> Node<'a> {
     pub fn new_child_member(&self, value: &'a Value, loc: &str) -> Rc<Self> {
         Rc::new(Node {
             value,
-            location: format!("{}['{}']", self.location, loc),
+            location: format!("{}['{}']", self.location, escape_name(loc)),
         })
     }
 
@@ -24,5 +24,26 @@ impl<'a> Node<'a> {
     }
 }
 
+/// Escape an object member name for use in a normalized path.
+fn escape_name(name: &str) -> String {
+    let mut escaped = String::with_capacity(name.len());
+
+    for c in name.chars() {
+        match c {
+            '\'' => escaped.push_str("\\'"),
+            '\\' => escaped.push_str("\\\\"),
+            '\x08' => escaped.push_str("\\b"),
+            '\t' => escaped.push_str("\\t"),
+            '\n' => escaped.push_str("\\n"),
+            '\x0C' => escaped.push_str("\\f"),
+            '\r' => escaped.push_str("\\r"),
+            '\x00'..='\x1F' => escaped.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => escaped.push(c),
+        }
+    }
+
+    escaped
+}
+
 pub type NodeList<'v> = Vec<Rc<Node<'v>>>;
 pub type NodeIter<'v> = Box<dyn Iterator<Item = Rc<Node<'v>>> + 'v>;
diff --git a/crates/jsonpath_rfc9535_locations/src/node.rs b/crates/jsonpath_rfc9535_locations/src/node.rs
index 4830840..342f169 100644
--- a/crates/jsonpath_rfc9535_locations/src/node.rs
+++ b/crates/jsonpath_rfc9535_locations/src/node.rs
@@ -40,7 +40,7 @@ impl<'v> Node<'v> {
             .chain(
                 VecDeque::from_iter(self.location.iter().map(|e| match e {
                     PathElement::Index(i) => format!("[{}]", i),
-                    PathElement::Name(s) => format!("['{}']", s),
+                    PathElement::Name(s) => format!("['{}']", escape_name(s)),
                 }))
                 .into_iter()
                 .rev(),
@@ -50,6 +50,27 @@ impl<'v> Node<'v> {
     }
 }
 
+/// Escape an object member name for use in a normalized path.
+fn escape_name(name: &str) -> String {
+    let mut escaped = String::with_capacity(name.len());
+
+    for c in name.chars() {
+        match c {
+            '\'' => escaped.push_str("\\'"),
+            '\\' => escaped.push_str("\\\\"),
+            '\x08' => escaped.push_str("\\b"),
+            '\t' => escaped.push_str("\\t"),
+            '\n' => escaped.push_str("\\n"),
+            '\x0C' => escaped.push_str("\\f"),
+            '\r' => escaped.push_str("\\r"),
+            '\x00'..='\x1F' => escaped.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => escaped.push(c),
+        }
+    }
+
+    escaped
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 4f46646..4f98409 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -34,7 +34,7 @@ impl<'a> Node<'a> {
     fn new_child_member(&self, value: &'a Value, loc: &str) -> Self {
         Node {
             value,
-            location: format!("{}['{}']", self.location, loc),
+            location: format!("{}['{}']", self.location, escape_name(loc)),
         }
     }
 
@@ -46,6 +46,27 @@ impl<'a> Node<'a> {
     }
 }
 
+/// Escape an object member name for use in a normalized path.
+fn escape_name(name: &str) -> String {
+    let mut escaped = String::with_capacity(name.len());
+
+    for c in name.chars() {
+        match c {
+            '\'' => escaped.push_str("\\'"),
+            '\\' => escaped.push_str("\\\\"),
+            '\x08' => escaped.push_str("\\b"),
+            '\t' => escaped.push_str("\\t"),
+            '\n' => escaped.push_str("\\n"),
+            '\x0C' => escaped.push_str("\\f"),
+            '\r' => escaped.push_str("\\r"),
+            '\x00'..='\x1F' => escaped.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => escaped.push(c),
+        }
+    }
+
+    escaped
+}
+
 pub type NodeList<'a> = Vec<Node<'a>>;
 
 struct QueryContext<'a, 'b> {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/node.rs b/crates/jsonpath_rfc9535_singular_selector/src/node.rs
index 4830840..342f169 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/node.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/node.rs
@@ -40,7 +40,7 @@ impl<'v> Node<'v> {
             .chain(
                 VecDeque::from_iter(self.location.iter().map(|e| match e {
                     PathElement::Index(i) => format!("[{}]", i),
-                    PathElement::Name(s) => format!("['{}']", s),
+                    PathElement::Name(s) => format!("['{}']", escape_name(s)),
                 }))
                 .into_iter()
                 .rev(),
@@ -50,6 +50,27 @@ impl<'v> Node<'v> {
     }
 }
 
+/// Escape an object member name for use in a normalized path.
+fn escape_name(name: &str) -> String {
+    let mut escaped = String::with_capacity(name.len());
+
+    for c in name.chars() {
+        match c {
+            '\'' => escaped.push_str("\\'"),
+            '\\' => escaped.push_str("\\\\"),
+            '\x08' => escaped.push_str("\\b"),
+            '\t' => escaped.push_str("\\t"),
+            '\n' => escaped.push_str("\\n"),
+            '\x0C' => escaped.push_str("\\f"),
+            '\r' => escaped.push_str("\\r"),
+            '\x00'..='\x1F' => escaped.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => escaped.push(c),
+        }
+    }
+
+    escaped
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From fde29744381713cb6236f7f16ae5764b0551c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 09/27] fix: pass the result of an existence test to Logical
 parameters

A query argument was replaced with the value of the node it selected.
---
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 6 ++++--
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 6 ++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 6 ++++--
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index dc5b2f4..12f3e60 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -391,8 +391,10 @@ fn unpack_result<'v>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'v> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 85b73da..96ca1d5 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -388,8 +388,10 @@ pub fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'a> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 4f98409..17ac5d6 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -912,8 +912,10 @@ fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> Result<FilterExpressionResult<'a>, JSONPathError> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return Ok(rv);
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return Ok(rv),
+        ExpressionType::Logical => return Ok(FilterExpressionResult::Bool(is_truthy(rv))),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 85b73da..96ca1d5 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -388,8 +388,10 @@ pub fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'a> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
-- 
2.43.0


From c61606bdc4540be02cdf368dd36faf56c6ea67d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 10/27] fix: accept escaped control characters in string
 literals

RFC 9535 allows any non-surrogate code point in a \\uXXXX escape sequence.
---
 crates/jsonpath_rfc9535_iter/src/unescape.rs       | 14 ++++++--------
 crates/jsonpath_rfc9535_locations/src/unescape.rs  | 14 ++++++--------
 crates/jsonpath_rfc9535_serde/src/unescape.rs      | 14 ++++++--------
 .../src/unescape.rs                                | 14 ++++++--------
 4 files changed, 24 insertions(+), 32 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/unescape.rs b/crates/jsonpath_rfc9535_iter/src/unescape.rs
index d38c16d..2aab14e 100644
--- a/crates/jsonpath_rfc9535_iter/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_iter/src/unescape.rs
@@ -84,14 +84,12 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point)
+        .ok_or_else(|| JSONPathError::syntax("invalid character".to_owned()))?
+        .encode_utf8(&mut buf);
+    Ok(rv.as_bytes().to_owned())
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_locations/src/unescape.rs b/crates/jsonpath_rfc9535_locations/src/unescape.rs
index d38c16d..2aab14e 100644
--- a/crates/jsonpath_rfc9535_locations/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_locations/src/unescape.rs
@@ -84,14 +84,12 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point)
+        .ok_or_else(|| JSONPathError::syntax("invalid character".to_owned()))?
+        .encode_utf8(&mut buf);
+    Ok(rv.as_bytes().to_owned())
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_serde/src/unescape.rs b/crates/jsonpath_rfc9535_serde/src/unescape.rs
index d38c16d..2aab14e 100644
--- a/crates/jsonpath_rfc9535_serde/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_serde/src/unescape.rs
@@ -84,14 +84,12 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point)
+        .ok_or_else(|| JSONPathError::syntax("invalid character".to_owned()))?
+        .encode_utf8(&mut buf);
+    Ok(rv.as_bytes().to_owned())
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
index d38c16d..2aab14e 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
@@ -84,14 +84,12 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point)
+        .ok_or_else(|| JSONPathError::syntax("invalid character".to_owned()))?
+        .encode_utf8(&mut buf);
+    Ok(rv.as_bytes().to_owned())
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
-- 
2.43.0


From 89223334c6f239f3db37b0bf2d50099a9b34c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 11/27] fix: only combine \uXXXX escapes that are a surrogate
 pair

Two consecutive escapes, like "\u0041\u0042", were decoded as if they were a
surrogate pair.
---
 crates/jsonpath_rfc9535/src/parser.rs             | 15 ++++++++++++---
 crates/jsonpath_rfc9535_pest/src/parser.rs        |  4 ++--
 .../jsonpath_rfc9535_pest_recursive/src/parser.rs |  4 ++--
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 5df9a7d..467104c 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -1054,10 +1054,12 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                             )
                         })?;
 
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
+                        if (0xD800..=0xDBFF).contains(&codepoint) {
                             // expect a surrogate pair
-                            if index + 9 >= length {
+                            if index + 9 >= length
+                                || chars[index + 4] != '\\'
+                                || chars[index + 5] != 'u'
+                            {
                                 return Err(JSONPathError::syntax(
                                     String::from("invalid \\uXXXX escape"),
                                     (start_index, length),
@@ -1077,6 +1079,13 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                                 )
                             })?;
 
+                            if !(0xDC00..=0xDFFF).contains(&low_surrogate) {
+                                return Err(JSONPathError::syntax(
+                                    String::from("invalid \\uXXXX escape"),
+                                    (start_index, index + 10),
+                                ));
+                            }
+
                             codepoint =
                                 0x10000 + (((codepoint & 0x03FF) << 10) | (low_surrogate & 0x03FF));
 
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 03895e4..4099cba 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -658,8 +658,8 @@ fn unescape_string(value: &str) -> String {
 
                         let mut codepoint = u32::from_str_radix(&digits, 16).unwrap();
 
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
+                        // a high surrogate is always followed by an escaped low surrogate
+                        if (0xD800..=0xDBFF).contains(&codepoint) {
                             let digits = &chars
                                 .get(index + 6..index + 10)
                                 .unwrap()
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 487f330..c57e888 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -674,8 +674,8 @@ fn unescape_string(value: &str) -> String {
 
                         let mut codepoint = u32::from_str_radix(&digits, 16).unwrap();
 
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
+                        // a high surrogate is always followed by an escaped low surrogate
+                        if (0xD800..=0xDBFF).contains(&codepoint) {
                             let digits = &chars
                                 .get(index + 6..index + 10)
                                 .unwrap()
-- 
2.43.0


From 6dfcb138a9a13c57790270177f56e2b2a868fe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 12/27] fix: ignore the end of input marker in Query::is_empty
 and is_singular

No query returned by the parser was ever empty or singular.
---
 crates/jsonpath_rfc9535_iter/src/query.rs         | 15 +++++++++------
 crates/jsonpath_rfc9535_locations/src/query.rs    | 15 +++++++++------
 crates/jsonpath_rfc9535_pest/src/ast.rs           | 15 +++++++++------
 crates/jsonpath_rfc9535_serde/src/ast.rs          | 15 +++++++++------
 .../src/query.rs                                  | 15 +++++++++------
 5 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/query.rs b/crates/jsonpath_rfc9535_iter/src/query.rs
index ef17568..8f67b09 100644
--- a/crates/jsonpath_rfc9535_iter/src/query.rs
+++ b/crates/jsonpath_rfc9535_iter/src/query.rs
@@ -23,18 +23,21 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
-        self.segments.iter().all(|segment| {
-            if let Segment::Child { selectors, .. } = segment {
-                return selectors.len() == 1
+        self.segments.iter().all(|segment| match segment {
+            Segment::Child { selectors, .. } => {
+                selectors.len() == 1
                     && selectors.first().is_some_and(|selector| {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
-                    });
+                    })
             }
-            false
+            Segment::Recursive { .. } => false,
+            Segment::Eoi => true,
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_locations/src/query.rs b/crates/jsonpath_rfc9535_locations/src/query.rs
index f5fe194..50cb4c8 100644
--- a/crates/jsonpath_rfc9535_locations/src/query.rs
+++ b/crates/jsonpath_rfc9535_locations/src/query.rs
@@ -55,18 +55,21 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
-        self.segments.iter().all(|segment| {
-            if let Segment::Child { selectors, .. } = segment {
-                return selectors.len() == 1
+        self.segments.iter().all(|segment| match segment {
+            Segment::Child { selectors, .. } => {
+                selectors.len() == 1
                     && selectors.first().is_some_and(|selector| {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
-                    });
+                    })
             }
-            false
+            Segment::Recursive { .. } => false,
+            Segment::Eoi => true,
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index dc3779a..2022eb3 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -30,18 +30,21 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
-        self.segments.iter().all(|segment| {
-            if let Segment::Child { selectors, .. } = segment {
-                return selectors.len() == 1
+        self.segments.iter().all(|segment| match segment {
+            Segment::Child { selectors, .. } => {
+                selectors.len() == 1
                     && selectors.first().is_some_and(|selector| {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
-                    });
+                    })
             }
-            false
+            Segment::Recursive { .. } => false,
+            Segment::Eoi => true,
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 17ac5d6..9addbf4 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -170,18 +170,21 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
-        self.segments.iter().all(|segment| {
-            if let Segment::Child { selectors, .. } = segment {
-                return selectors.len() == 1
+        self.segments.iter().all(|segment| match segment {
+            Segment::Child { selectors, .. } => {
+                selectors.len() == 1
                     && selectors.first().is_some_and(|selector| {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
-                    });
+                    })
             }
-            false
+            Segment::Recursive { .. } => false,
+            Segment::Eoi => true,
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/query.rs b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
index f5fe194..50cb4c8 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/query.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
@@ -55,18 +55,21 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
-        self.segments.iter().all(|segment| {
-            if let Segment::Child { selectors, .. } = segment {
-                return selectors.len() == 1
+        self.segments.iter().all(|segment| match segment {
+            Segment::Child { selectors, .. } => {
+                selectors.len() == 1
                     && selectors.first().is_some_and(|selector| {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
-                    });
+                    })
             }
-            false
+            Segment::Recursive { .. } => false,
+            Segment::Eoi => true,
         })
     }
 }
-- 
2.43.0


From 0096fe38b65b52acf39445345f68737747d41a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 13/27] fix: reject uncompared Value functions in logical
 expressions

`!length(@.a)`, logical expressions in function arguments and, in the hand
written parser, operands of && and || were not checked.
---
 crates/jsonpath_rfc9535/src/parser.rs         | 58 ++++++++++---------
 crates/jsonpath_rfc9535_iter/src/parser.rs    | 23 ++++----
 .../jsonpath_rfc9535_locations/src/parser.rs  | 23 ++++----
 crates/jsonpath_rfc9535_pest/src/parser.rs    | 23 ++++----
 .../src/parser.rs                             | 23 ++++----
 crates/jsonpath_rfc9535_serde/src/parser.rs   | 23 ++++----
 .../src/parser.rs                             | 23 ++++----
 7 files changed, 104 insertions(+), 92 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 467104c..f51ffd6 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -448,32 +448,7 @@ impl Parser {
         let token = it.next();
         let expr = self.parse_filter_expression(it, PRECEDENCE_LOWEST)?;
 
-        match expr {
-            FilterExpression::Function { ref name, span, .. } => {
-                if let Some(FunctionSignature {
-                    return_type: ExpressionType::Value,
-                    ..
-                }) = self.functions.get(name)
-                {
-                    return Err(JSONPathError::typ(
-                        format!("result of {}() must be compared", name),
-                        span,
-                    ));
-                }
-            }
-            FilterExpression::True { span, .. }
-            | FilterExpression::False { span, .. }
-            | FilterExpression::Null { span, .. }
-            | FilterExpression::String { span, .. }
-            | FilterExpression::Int { span, .. }
-            | FilterExpression::Float { span, .. } => {
-                return Err(JSONPathError::typ(
-                    String::from("filter expression literals must be compared"),
-                    span,
-                ));
-            }
-            _ => (),
-        }
+        self.assert_compared(&expr)?;
 
         Ok(Selector::Filter {
             span: token.span,
@@ -487,6 +462,7 @@ impl Parser {
     ) -> Result<FilterExpression, JSONPathError> {
         let token = it.next();
         let expr = self.parse_filter_expression(it, PRECEDENCE_LOGICAL_NOT)?;
+        self.assert_compared(&expr)?;
         Ok(FilterExpression::Not {
             span: token.span,
             expression: Box::new(expr),
@@ -510,6 +486,8 @@ impl Parser {
                         left.span(),
                     ))
                 } else {
+                    self.assert_compared(&left)?;
+                    self.assert_compared(&right)?;
                     Ok(FilterExpression::Logical {
                         span: left.span(),
                         left: Box::new(left),
@@ -525,6 +503,8 @@ impl Parser {
                         left.span(),
                     ))
                 } else {
+                    self.assert_compared(&left)?;
+                    self.assert_compared(&right)?;
                     Ok(FilterExpression::Logical {
                         span: left.span(),
                         left: Box::new(left),
@@ -817,6 +797,32 @@ impl Parser {
         }
     }
 
+    fn assert_compared(&self, expr: &FilterExpression) -> Result<(), JSONPathError> {
+        match expr {
+            FilterExpression::Function { ref name, span, .. } => {
+                if let Some(FunctionSignature {
+                    return_type: ExpressionType::Value,
+                    ..
+                }) = self.functions.get(name)
+                {
+                    return Err(JSONPathError::typ(
+                        format!("result of {}() must be compared", name),
+                        *span,
+                    ));
+                }
+            }
+            expr if expr.is_literal() => {
+                return Err(JSONPathError::typ(
+                    String::from("filter expression literals must be compared"),
+                    expr.span(),
+                ));
+            }
+            _ => (),
+        }
+
+        Ok(())
+    }
+
     fn assert_comparable(
         &self,
         expr: &FilterExpression,
diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index db5ef4f..fc95c30 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -148,10 +148,9 @@ impl JSONPathParser {
         }
 
         for and_expr in it {
-            let right = self.parse_logical_and_expression(and_expr, assert_compared)?;
-            if assert_compared {
-                self.assert_compared(&right)?;
-            }
+            let right = self.parse_logical_and_expression(and_expr, true)?;
+            self.assert_compared(&or_expr)?;
+            self.assert_compared(&right)?;
             or_expr = FilterExpression::Logical {
                 left: Box::new(or_expr),
                 operator: LogicalOperator::Or,
@@ -176,10 +175,8 @@ impl JSONPathParser {
 
         for basic_expr in it {
             let right = self.parse_basic_expression(basic_expr)?;
-
-            if assert_compared {
-                self.assert_compared(&right)?;
-            }
+            self.assert_compared(&and_expr)?;
+            self.assert_compared(&right)?;
 
             and_expr = FilterExpression::Logical {
                 left: Box::new(and_expr),
@@ -301,9 +298,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index db5ef4f..fc95c30 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -148,10 +148,9 @@ impl JSONPathParser {
         }
 
         for and_expr in it {
-            let right = self.parse_logical_and_expression(and_expr, assert_compared)?;
-            if assert_compared {
-                self.assert_compared(&right)?;
-            }
+            let right = self.parse_logical_and_expression(and_expr, true)?;
+            self.assert_compared(&or_expr)?;
+            self.assert_compared(&right)?;
             or_expr = FilterExpression::Logical {
                 left: Box::new(or_expr),
                 operator: LogicalOperator::Or,
@@ -176,10 +175,8 @@ impl JSONPathParser {
 
         for basic_expr in it {
             let right = self.parse_basic_expression(basic_expr)?;
-
-            if assert_compared {
-                self.assert_compared(&right)?;
-            }
+            self.assert_compared(&and_expr)?;
+            self.assert_compared(&right)?;
 
             and_expr = FilterExpression::Logical {
                 left: Box::new(and_expr),
@@ -301,9 +298,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 4099cba..17624e1 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -200,10 +200,9 @@ impl JSONPathParser {
         }
 
         for and_expr in it {
-            let right = self.parse_logical_and_expression(and_expr, assert_compared)?;
-            if assert_compared {
-                self.assert_compared(&right)?;
-            }
+            let right = self.parse_logical_and_expression(and_expr, true)?;
+            self.assert_compared(&or_expr)?;
+            self.assert_compared(&right)?;
             or_expr = FilterExpression::Logical {
                 left: Box::new(or_expr),
                 operator: LogicalOperator::Or,
@@ -228,10 +227,8 @@ impl JSONPathParser {
 
         for basic_expr in it {
             let right = self.parse_basic_expression(basic_expr)?;
-
-            if assert_compared {
-                self.assert_compared(&right)?;
-            }
+            self.assert_compared(&and_expr)?;
+            self.assert_compared(&right)?;
 
             and_expr = FilterExpression::Logical {
                 left: Box::new(and_expr),
@@ -353,9 +350,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index c57e888..3203e9a 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -221,10 +221,9 @@ impl JSONPathParser {
         }
 
         for and_expr in it {
-            let right = self.parse_logical_and_expression(and_expr, assert_compared)?;
-            if assert_compared {
-                self.assert_compared(&right)?;
-            }
+            let right = self.parse_logical_and_expression(and_expr, true)?;
+            self.assert_compared(&or_expr)?;
+            self.assert_compared(&right)?;
             or_expr = FilterExpression::Logical {
                 left: Box::new(or_expr),
                 operator: LogicalOperator::Or,
@@ -249,10 +248,8 @@ impl JSONPathParser {
 
         for basic_expr in it {
             let right = self.parse_basic_expression(basic_expr)?;
-
-            if assert_compared {
-                self.assert_compared(&right)?;
-            }
+            self.assert_compared(&and_expr)?;
+            self.assert_compared(&right)?;
 
             and_expr = FilterExpression::Logical {
                 left: Box::new(and_expr),
@@ -372,9 +369,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index 8c7bd1c..8de2bb4 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -145,10 +145,9 @@ impl JSONPathParser {
         }
 
         for and_expr in it {
-            let right = self.parse_logical_and_expression(and_expr, assert_compared)?;
-            if assert_compared {
-                self.assert_compared(&right)?;
-            }
+            let right = self.parse_logical_and_expression(and_expr, true)?;
+            self.assert_compared(&or_expr)?;
+            self.assert_compared(&right)?;
             or_expr = FilterExpression::Logical {
                 left: Box::new(or_expr),
                 operator: LogicalOperator::Or,
@@ -173,10 +172,8 @@ impl JSONPathParser {
 
         for basic_expr in it {
             let right = self.parse_basic_expression(basic_expr)?;
-
-            if assert_compared {
-                self.assert_compared(&right)?;
-            }
+            self.assert_compared(&and_expr)?;
+            self.assert_compared(&right)?;
 
             and_expr = FilterExpression::Logical {
                 left: Box::new(and_expr),
@@ -298,9 +295,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index 5ba71db..a7895b6 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -167,10 +167,9 @@ impl JSONPathParser {
         }
 
         for and_expr in it {
-            let right = self.parse_logical_and_expression(and_expr, assert_compared)?;
-            if assert_compared {
-                self.assert_compared(&right)?;
-            }
+            let right = self.parse_logical_and_expression(and_expr, true)?;
+            self.assert_compared(&or_expr)?;
+            self.assert_compared(&right)?;
             or_expr = FilterExpression::Logical {
                 left: Box::new(or_expr),
                 operator: LogicalOperator::Or,
@@ -195,10 +194,8 @@ impl JSONPathParser {
 
         for basic_expr in it {
             let right = self.parse_basic_expression(basic_expr)?;
-
-            if assert_compared {
-                self.assert_compared(&right)?;
-            }
+            self.assert_compared(&and_expr)?;
+            self.assert_compared(&right)?;
 
             and_expr = FilterExpression::Logical {
                 left: Box::new(and_expr),
@@ -320,9 +317,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
-- 
2.43.0


From 3796e72acd95de580934defdaea5b8df2e631ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 14/27] fix: reject comparisons with logical expressions in the
 hand written parser

`!@.a == 1`, `@.a == @.b == @.c` and `1 == (@.a && @.b)` were accepted.
---
 crates/jsonpath_rfc9535/src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index f51ffd6..ae09bb6 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -854,6 +854,12 @@ impl Parser {
                     ))
                 }
             }
+            FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => Err(JSONPathError::typ(
+                String::from("result of a logical expression is not comparable"),
+                span,
+            )),
             _ => Ok(()),
         }
     }
-- 
2.43.0


From c3786bfab140a17363e0b381818a1e5ac824751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 15/27] fix: accept negations and functions as Logical
 arguments

---
 crates/jsonpath_rfc9535/src/parser.rs         | 29 ++++++++++++++-----
 crates/jsonpath_rfc9535_iter/src/parser.rs    | 29 ++++++++++++++-----
 .../jsonpath_rfc9535_locations/src/parser.rs  | 29 ++++++++++++++-----
 crates/jsonpath_rfc9535_pest/src/parser.rs    | 29 ++++++++++++++-----
 .../src/parser.rs                             | 29 ++++++++++++++-----
 crates/jsonpath_rfc9535_serde/src/parser.rs   | 29 ++++++++++++++-----
 .../src/parser.rs                             | 29 ++++++++++++++-----
 7 files changed, 154 insertions(+), 49 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index ae09bb6..14f1a23 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -909,13 +909,7 @@ impl Parser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !self.is_logical_type(arg) {
                         return Err(JSONPathError::typ(
                             format!(
                                 "argument {} of {}() must be of a 'Logical' type",
@@ -970,6 +964,27 @@ impl Parser {
         }
     }
 
+    fn is_logical_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. }
+            | FilterExpression::RootQuery { .. }
+            | FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                // a list of nodes will be coerced to a logical value
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index fc95c30..167c21e 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -504,13 +504,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !self.is_logical_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -559,6 +553,27 @@ impl JSONPathParser {
         }
     }
 
+    fn is_logical_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. }
+            | FilterExpression::RootQuery { .. }
+            | FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                // a list of nodes will be coerced to a logical value
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index fc95c30..167c21e 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -504,13 +504,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !self.is_logical_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -559,6 +553,27 @@ impl JSONPathParser {
         }
     }
 
+    fn is_logical_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. }
+            | FilterExpression::RootQuery { .. }
+            | FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                // a list of nodes will be coerced to a logical value
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 17624e1..324fc8a 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -556,13 +556,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !self.is_logical_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -611,6 +605,27 @@ impl JSONPathParser {
         }
     }
 
+    fn is_logical_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. }
+            | FilterExpression::RootQuery { .. }
+            | FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                // a list of nodes will be coerced to a logical value
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 3203e9a..0e7f061 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -572,13 +572,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !self.is_logical_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -627,6 +621,27 @@ impl JSONPathParser {
         }
     }
 
+    fn is_logical_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. }
+            | FilterExpression::RootQuery { .. }
+            | FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                // a list of nodes will be coerced to a logical value
+                matches!(
+                    self.function_signatures.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index 8de2bb4..b03e939 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -501,13 +501,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !self.is_logical_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -556,6 +550,27 @@ impl JSONPathParser {
         }
     }
 
+    fn is_logical_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. }
+            | FilterExpression::RootQuery { .. }
+            | FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                // a list of nodes will be coerced to a logical value
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index a7895b6..61f3f54 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -523,13 +523,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !self.is_logical_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -578,6 +572,27 @@ impl JSONPathParser {
         }
     }
 
+    fn is_logical_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. }
+            | FilterExpression::RootQuery { .. }
+            | FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                // a list of nodes will be coerced to a logical value
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
-- 
2.43.0


From 85bb8ed2fca02666fbe308ae05255b4b2ce880c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 16/27] fix: display negated comparisons with parentheses

`!(@.a == 1)` was displayed as `!@['a'] == 1`.
---
 crates/jsonpath_rfc9535/src/query.rs                    | 7 ++++++-
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 7 ++++++-
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 7 ++++++-
 crates/jsonpath_rfc9535_pest/src/ast.rs                 | 7 ++++++-
 crates/jsonpath_rfc9535_pest_recursive/src/ast.rs       | 7 ++++++-
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 7 ++++++-
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 7 ++++++-
 7 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/query.rs b/crates/jsonpath_rfc9535/src/query.rs
index 1d7dd05..b42abc4 100644
--- a/crates/jsonpath_rfc9535/src/query.rs
+++ b/crates/jsonpath_rfc9535/src/query.rs
@@ -289,7 +289,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "\"{value}\""),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 12f3e60..a797e06 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -144,7 +144,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 96ca1d5..1b3fd4c 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -142,7 +142,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index 2022eb3..d92d9c2 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -247,7 +247,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
index 5242985..5a4bb9e 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
@@ -212,7 +212,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::StringLiteral { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 9addbf4..c0d913b 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -646,7 +646,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 96ca1d5..1b3fd4c 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -142,7 +142,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
-- 
2.43.0


From 31f02ee88b267c044d6f22db034d4f7ca9a113ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 17/27] fix: parse function arguments and comparables the
 ordered choice missed

A function argument starting with a query could not be a logical expression,
and a function with a name starting with "true", "false" or "null" could not
be compared.
---
 crates/jsonpath_rfc9535_iter/src/jsonpath.pest              | 6 +++---
 crates/jsonpath_rfc9535_locations/src/jsonpath.pest         | 6 +++---
 crates/jsonpath_rfc9535_pest/src/jsonpath.pest              | 6 +++---
 crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest    | 6 +++---
 crates/jsonpath_rfc9535_serde/src/jsonpath.pest             | 6 +++---
 crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest | 6 +++---
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
index e1f7edb..18b3d39 100644
--- a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
@@ -109,9 +109,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -149,7 +149,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (filter_query ~ &(S ~ ("," | ")")))
   | logical_expr
   | function_expr
   | literal
diff --git a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
index e1f7edb..18b3d39 100644
--- a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
@@ -109,9 +109,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -149,7 +149,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (filter_query ~ &(S ~ ("," | ")")))
   | logical_expr
   | function_expr
   | literal
diff --git a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
index e1f7edb..18b3d39 100644
--- a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
@@ -109,9 +109,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -149,7 +149,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (filter_query ~ &(S ~ ("," | ")")))
   | logical_expr
   | function_expr
   | literal
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
index e1f7edb..18b3d39 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
@@ -109,9 +109,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -149,7 +149,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (filter_query ~ &(S ~ ("," | ")")))
   | logical_expr
   | function_expr
   | literal
diff --git a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
index e1f7edb..18b3d39 100644
--- a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
@@ -109,9 +109,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -149,7 +149,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (filter_query ~ &(S ~ ("," | ")")))
   | logical_expr
   | function_expr
   | literal
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
index 26df850..caf3ac1 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
@@ -112,9 +112,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -161,7 +161,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (filter_query ~ &(S ~ ("," | ")")))
   | logical_expr
   | function_expr
   | literal
-- 
2.43.0


From d66aaa761134581f7834a117a1c3d19311ee27b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 18/27] fix: do not stop parsing at a null character

`$.a\0junk` was parsed as `$.a`.
---
 crates/jsonpath_rfc9535/src/lexer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index f0e7828..41890bc 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -304,8 +304,7 @@ fn lex_segment(l: &mut Lexer) -> State {
         State::LexInsideBracketedSegment
     } else if l.filter_depth > 0 {
         State::LexInsideFilter
-    } else if l.peek() == EOQ {
-        l.next();
+    } else if l.pos == l.query.len() {
         l.emit(TokenType::Eoq);
         State::EndOfQuery
     } else {
-- 
2.43.0


From 41482d94a39196ac2fc2aecc61ba67565a65e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 19/27] fix: number literals with leading zeros, an upper case
 exponent or more than 53 bits

`01` was accepted, `1E2` was rejected and integers were rounded or saturated.
---
 crates/jsonpath_rfc9535/src/lexer.rs  |  9 +++++++--
 crates/jsonpath_rfc9535/src/parser.rs | 16 ++++++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index 41890bc..25c6fd1 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -648,6 +648,11 @@ fn lex_number(l: &mut Lexer) -> State {
         return l.error(msg);
     }
 
+    let digits = l.value().trim_start_matches('-');
+    if digits.len() > 1 && digits.starts_with('0') {
+        return l.error(String::from("unexpected leading zero in number literal"));
+    }
+
     if l.accept('.') {
         // a float
         if !l.accept_run(is_digit) {
@@ -657,7 +662,7 @@ fn lex_number(l: &mut Lexer) -> State {
         }
 
         // exponent
-        if l.accept('e') {
+        if l.accept_if(|ch| ch == 'e' || ch == 'E') {
             l.accept_if(|ch| ch == '+' || ch == '-');
             if !l.accept_run(is_digit) {
                 return l.error(String::from("at least one exponent digit is required"));
@@ -669,7 +674,7 @@ fn lex_number(l: &mut Lexer) -> State {
         });
     } else {
         // exponent
-        if l.accept('e') {
+        if l.accept_if(|ch| ch == 'e' || ch == 'E') {
             if l.accept('-') {
                 // emit a float if exponent is negative
                 if !l.accept_run(is_digit) {
diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 14f1a23..9141234 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -663,14 +663,22 @@ impl Parser {
                 kind: Int { value },
                 span,
             } => {
-                let i = value.parse::<f64>().map_err(|_| {
+                if let Ok(i) = value.parse::<i64>() {
+                    let token = it.next();
+                    return Ok(FilterExpression::Int {
+                        span: token.span,
+                        value: i,
+                    });
+                }
+
+                let f = value.parse::<f64>().map_err(|_| {
                     JSONPathError::syntax(String::from("invalid integer literal"), *span)
-                })? as i64;
+                })?;
 
                 let token = it.next();
-                Ok(FilterExpression::Int {
+                Ok(FilterExpression::Float {
                     span: token.span,
-                    value: i,
+                    value: f,
                 })
             }
             Token { kind: Null, .. } => {
-- 
2.43.0


From 96eece890c3fe96c3b2fcebfbf55cc7fbd166a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 20/27] fix: missing and trailing separators in the hand
 written parser

`$[1,]`, `$[1:2 3]`, `f(1,)` and `f(1 2)` were accepted, and `$[1 2]` failed a
debug assertion.
---
 crates/jsonpath_rfc9535/src/parser.rs | 42 ++++++++++++++++++---------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 9141234..1091ace 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -315,24 +315,22 @@ impl Parser {
                 }
             }
 
-            #[cfg(debug_assertions)]
-            debug_assert!(
-                matches!(
-                    it.peek(),
-                    Token {
-                        kind: Comma | TokenType::RBracket,
-                        ..
-                    }
-                ),
-                "expected a comma or the end of a bracketed selection"
-            );
-
             // expect a comma or closing bracket
             match it.peek() {
                 Token { kind: RBracket, .. } => continue,
                 Token { kind: Comma, .. } => {
                     // eat comma
                     it.next();
+                    if let Token {
+                        kind: RBracket,
+                        span,
+                    } = it.peek()
+                    {
+                        return Err(JSONPathError::syntax(
+                            String::from("unexpected trailing comma"),
+                            *span,
+                        ));
+                    }
                 }
                 token => {
                     return Err(JSONPathError::new(
@@ -386,6 +384,8 @@ impl Parser {
                 it.next(); // eat colon
             }
 
+            let mut second_colon = false;
+
             // 1 or 1: or : or ?
             if matches!(it.peek().kind, Index { .. } | Colon) {
                 if let Token {
@@ -396,12 +396,15 @@ impl Parser {
                     stop = Some(self.parse_i_json_int(value, span)?);
                     if it.peek().kind == Colon {
                         it.next(); // eat colon
+                        second_colon = true;
                     }
+                } else {
+                    second_colon = true;
                 }
             }
 
             // 1 or ?
-            if matches!(it.peek().kind, Index { .. }) {
+            if second_colon && matches!(it.peek().kind, Index { .. }) {
                 if let Token {
                     kind: Index { ref value },
                     span,
@@ -744,8 +747,19 @@ impl Parser {
                 }
                 Token { kind: Comma, .. } => {
                     it.next(); // eat comma
+                    if let Token { kind: RParen, span } = it.peek() {
+                        return Err(JSONPathError::syntax(
+                            String::from("unexpected trailing comma"),
+                            *span,
+                        ));
+                    }
+                }
+                Token { kind, span } => {
+                    return Err(JSONPathError::syntax(
+                        format!("expected a comma or closing parenthesis, found {}", kind),
+                        *span,
+                    ));
                 }
-                _ => (),
             }
         }
 
-- 
2.43.0


From 85a2ca0e028973b066cb4638b5c537379fdd2f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 21/27] fix: tokenize filter selectors nested in function
 arguments

`$[?count(@[?@.a]) > 0]` was rejected, and a comma between selectors of a
nested bracketed selection was taken for a comma between arguments.
---
 crates/jsonpath_rfc9535/src/lexer.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index 25c6fd1..b41dade 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -385,6 +385,8 @@ fn lex_inside_bracketed_segment(l: &mut Lexer) -> State {
             l.next();
             l.emit(TokenType::Filter);
             l.filter_depth += 1;
+            // Parens opened by a filter selector are not those of enclosing filters.
+            l.paren_stack.push(0);
             State::LexInsideFilter
         }
         ',' => {
@@ -446,7 +448,7 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
         EOQ => l.error(String::from("unclosed bracketed selection")),
         ']' => {
             l.filter_depth -= 1;
-            if l.paren_stack.len() == 1 {
+            if l.paren_stack.pop() != Some(0) {
                 l.error(String::from("unbalanced parentheses"))
             } else {
                 State::LexInsideBracketedSegment
@@ -457,10 +459,11 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             l.emit(TokenType::Comma);
             // If we have unbalanced parens, we are inside a function call and a
             // comma separates arguments. Otherwise a comma separates selectors.
-            if !l.paren_stack.is_empty() {
+            if l.paren_stack.last() != Some(&0) {
                 State::LexInsideFilter
             } else {
                 l.filter_depth -= 1;
+                l.paren_stack.pop();
                 State::LexInsideBracketedSegment
             }
         }
@@ -476,7 +479,7 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             l.next();
             l.emit(TokenType::LParen);
             // Are we in a function call? If so, a function argument contains parens.
-            if let Some(i) = l.paren_stack.last_mut() {
+            if let Some(i) = l.paren_stack.last_mut().filter(|i| **i > 0) {
                 *i += 1;
             }
             State::LexInsideFilter
@@ -485,12 +488,12 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             l.next();
             l.emit(TokenType::RParen);
             // Are we closing a function call or a parenthesized expression?
-            if !l.paren_stack.is_empty() {
-                if *l.paren_stack.last().unwrap() == 1 {
+            match l.paren_stack.last_mut() {
+                None | Some(0) => (),
+                Some(1) => {
                     l.paren_stack.pop();
-                } else {
-                    *l.paren_stack.last_mut().unwrap() -= 1;
                 }
+                Some(i) => *i -= 1,
             }
             State::LexInsideFilter
         }
-- 
2.43.0


From 896f2672fad79de138d4748a5ba7a8c2ca334316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:13 +0000
Subject: [PATCH 22/27] fix: \u escapes with a sign in the hand written parser

---
 crates/jsonpath_rfc9535/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 1091ace..d1f192c 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -1081,7 +1081,11 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                     't' => rv.push('\t'),
                     'u' => {
                         // expect four hex digits
-                        if index + 4 >= length {
+                        if index + 4 >= length
+                            || !chars[index + 1..index + 5]
+                                .iter()
+                                .all(char::is_ascii_hexdigit)
+                        {
                             return Err(JSONPathError::syntax(
                                 String::from("invalid \\uXXXX escape"),
                                 (start_index, length),
-- 
2.43.0


From 86f2c018f1a952a480bf8455868d4922f0a74d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:27 +0000
Subject: [PATCH 23/27] fix: accept a bracketed segment after a bracketed
 segment inside a filter

---
 crates/jsonpath_rfc9535/src/lexer.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index b41dade..9a776d0 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -370,11 +370,7 @@ fn lex_inside_bracketed_segment(l: &mut Lexer) -> State {
         ']' => {
             l.next();
             l.emit(TokenType::RBracket);
-            if l.filter_depth > 0 {
-                State::LexInsideFilter
-            } else {
-                State::LexSegment
-            }
+            State::LexSegment
         }
         '*' => {
             l.next();
-- 
2.43.0


From 941f63a7c57f2c280802e1333010121f7b3ac919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:52 +0000
Subject: [PATCH 24/27] fix: parentheses enclose a logical expression in the
 hand written parser

---
 crates/jsonpath_rfc9535/src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index d1f192c..5f1d32e 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -622,6 +622,7 @@ impl Parser {
         );
 
         it.next(); // eat closing paren
+        self.assert_compared(&expr)?;
         Ok(expr)
     }
 
-- 
2.43.0


From 706eac7beafa60158761514d137f58f16e228e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:58 +0000
Subject: [PATCH 25/27] fix: a logical not applies to one operand in the hand
 written parser

---
 crates/jsonpath_rfc9535/src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 5f1d32e..6b3a334 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -464,6 +464,12 @@ impl Parser {
         it: &mut TokenStream,
     ) -> Result<FilterExpression, JSONPathError> {
         let token = it.next();
+        if let Token { kind: Not, span } = it.peek() {
+            return Err(JSONPathError::syntax(
+                String::from("expected an expression, found another '!'"),
+                *span,
+            ));
+        }
         let expr = self.parse_filter_expression(it, PRECEDENCE_LOGICAL_NOT)?;
         self.assert_compared(&expr)?;
         Ok(FilterExpression::Not {
-- 
2.43.0


From 51aff4d0f4583ca4fb77fe44006882b68e75fd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:13 +0000
Subject: [PATCH 26/27] fix: parenthesized expressions are not comparable in
 the hand written parser

---
 crates/jsonpath_rfc9535/src/parser.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 6b3a334..68e0806 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -485,6 +485,16 @@ impl Parser {
     ) -> Result<FilterExpression, JSONPathError> {
         let op_token = it.next();
         let precedence = self.precedence(&op_token.kind);
+
+        if let (Eq | Ge | Gt | Le | Lt | Ne, Token { kind: LParen, span }) =
+            (&op_token.kind, it.peek())
+        {
+            return Err(JSONPathError::syntax(
+                String::from("parenthesized expressions are not comparable"),
+                *span,
+            ));
+        }
+
         let right = self.parse_filter_expression(it, precedence)?;
 
         match op_token.kind {
@@ -629,6 +639,18 @@ impl Parser {
 
         it.next(); // eat closing paren
         self.assert_compared(&expr)?;
+
+        if let Token {
+            kind: Eq | Ge | Gt | Le | Lt | Ne,
+            span,
+        } = it.peek()
+        {
+            return Err(JSONPathError::syntax(
+                String::from("parenthesized expressions are not comparable"),
+                *span,
+            ));
+        }
+
         Ok(expr)
     }
 
-- 
2.43.0


From 8bc6bb31acb79848c17b089b2a3ab824f96c1cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:34 +0000
Subject: [PATCH 27/27] fix: iterators recursed once per element that is not
 selected, overflowing the stack on large arrays

---
 crates/jsonpath_rfc9535_iter/src/iter.rs | 38 ++++++++----------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/iter.rs b/crates/jsonpath_rfc9535_iter/src/iter.rs
index ae1ae4c..34a617f 100644
--- a/crates/jsonpath_rfc9535_iter/src/iter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/iter.rs
@@ -67,15 +67,11 @@ pub struct SegmentIter<'v> {
 impl<'v> Iterator for SegmentIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some(v) => Some(v),
-            None => match self.selectors.next() {
-                Some(it) => {
-                    self.it = Box::new(it);
-                    self.next()
-                }
-                None => None,
-            },
+        loop {
+            match self.it.next() {
+                Some(v) => return Some(v),
+                None => self.it = Box::new(self.selectors.next()?),
+            }
         }
     }
 }
@@ -210,15 +206,11 @@ pub struct ArrayFilterIter<'v> {
 impl<'v> Iterator for ArrayFilterIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some((index, value)) => {
-                if is_truthy(self.expr.evaluate(self.env, self.root, value)) {
-                    Some(self.parent.new_child_element(value, index))
-                } else {
-                    self.next()
-                }
+        loop {
+            let (index, value) = self.it.next()?;
+            if is_truthy(self.expr.evaluate(self.env, self.root, value)) {
+                return Some(self.parent.new_child_element(value, index));
             }
-            None => None,
         }
     }
 }
@@ -252,15 +244,11 @@ pub struct ObjectFilterIter<'v> {
 impl<'v> Iterator for ObjectFilterIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some((k, v)) => {
-                if is_truthy(self.expr.evaluate(self.env, self.root, v)) {
-                    Some(self.parent.new_child_member(v, k))
-                } else {
-                    self.next()
-                }
+        loop {
+            let (k, v) = self.it.next()?;
+            if is_truthy(self.expr.evaluate(self.env, self.root, v)) {
+                return Some(self.parent.new_child_member(v, k));
             }
-            None => None,
         }
     }
 }
-- 
2.43.0


From 440164a80d1ccbc7f187a842ddb9a5447f7bd964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:54 +0000
Subject: [PATCH 001/104] fix: give expr::Expr a virtual destructor

Symbols are owned and destroyed through a pointer to Expr, which leaked their names and is undefined behaviour.
---
 src/eval.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eval.hh b/src/eval.hh
index e031788..e650459 100644
--- a/src/eval.hh
+++ b/src/eval.hh
@@ -37,6 +37,7 @@ enum class Operator {
 class Expr {
 public:
     explicit Expr(Operator op) : op(op) {}
+    virtual ~Expr() = default;
     void set_value(ExpressionType value) { value_ = value; }
 
     Expr *left = nullptr;
-- 
2.43.0


From 06c6e1b3b185c8c95849031a1523f6efe401d883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:54 +0000
Subject: [PATCH 002/104] fix: no undefined behaviour in expression arithmetic

A condition such as a / b crashed the simulator when b was 0, and overflow was undefined.
---
 src/eval.cc | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index 5a783a1..d5edde3 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -376,6 +376,24 @@ Expr* parse(const std::string& value, DebugExpression& debug_expression) {
     }
 }
 
+// arithmetic wraps around as in two's complement, without the undefined behavior of signed overflow
+inline ExpressionType wrap(uint64_t value) { return static_cast<ExpressionType>(value); }
+inline uint64_t bits(ExpressionType value) { return static_cast<uint64_t>(value); }
+
+// the values come from the design and the user, so the divisor can be anything. a division by zero
+// yields 0 instead of taking down the simulator
+ExpressionType divide_values(ExpressionType left, ExpressionType right) {
+    if (right == 0) [[unlikely]]
+        return 0;
+    return right == -1 ? wrap(0 - bits(left)) : left / right;
+}
+
+ExpressionType mod_values(ExpressionType left, ExpressionType right) {
+    if (right == 0 || right == -1) [[unlikely]]
+        return 0;
+    return left % right;
+}
+
 ExpressionType Expr::eval() const {
     switch (op) {
         case Operator::None:
@@ -383,17 +401,17 @@ ExpressionType Expr::eval() const {
         case Operator::UAdd:
             return unary->eval();
         case Operator::UMinus:
-            return -unary->eval();
+            return wrap(0 - bits(unary->eval()));
         case Operator::Add:
-            return left->eval() + right->eval();
+            return wrap(bits(left->eval()) + bits(right->eval()));
         case Operator::Minus:
-            return left->eval() - right->eval();
+            return wrap(bits(left->eval()) - bits(right->eval()));
         case Operator::Multiply:
-            return left->eval() * right->eval();
+            return wrap(bits(left->eval()) * bits(right->eval()));
         case Operator::Divide:
-            return left->eval() / right->eval();
+            return divide_values(left->eval(), right->eval());
         case Operator::Mod:
-            return left->eval() % right->eval();
+            return mod_values(left->eval(), right->eval());
         case Operator::Eq:
             return left->eval() == right->eval();
         case Operator::Neq:
-- 
2.43.0


From caded509da0a5e5ef129f60440c33c455ccdb511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:54 +0000
Subject: [PATCH 003/104] fix: read 64-bit hexadecimal literals with the top
 bit set

64'hFFFFFFFFFFFFFFFF was read as 2^63 - 1.
---
 src/eval.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index d5edde3..f5765ea 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -238,9 +238,10 @@ struct action<hex_integer> {
         auto pos = value.find_first_of('\'');
         std::stringstream ss;
         ss << std::hex << value.substr(pos + 2);
-        ExpressionType v;
+        // unsigned, so that values with the most significant bit set are read as well
+        uint64_t v;
         ss >> v;
-        expr->set_value(v);
+        expr->set_value(static_cast<ExpressionType>(v));
         state.push(expr);
     }
 };
-- 
2.43.0


From 58025febb90aa74e7e8b84f2ddb6be33178584cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:54 +0000
Subject: [PATCH 004/104] fix: no exponential backtracking on unary operators

unary_expression already tries a value first; trying it twice per operator made invalid text such as
!(!(!(... take exponential time.
---
 src/eval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.cc b/src/eval.cc
index f5765ea..87b321e 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -77,7 +77,7 @@ struct expression;
 struct unary_expression;
 struct bracketed : seq<open_bracket, expression, close_bracket> {};
 struct value : pad<sor<hex_integer, integer, variable, bracketed>, space> {};
-struct unary_expression0 : sor<seq<unary_op, value>, seq<unary_op, unary_expression>> {};
+struct unary_expression0 : seq<unary_op, unary_expression> {};
 struct unary_expression : sor<value, pad<unary_expression0, space>> {};
 struct multiplicative_expression0 : seq<multiplicative_op, unary_expression> {};
 struct multiplicative_expression : seq<unary_expression, star<multiplicative_expression0>> {};
-- 
2.43.0


From 3b59c2cf4b4da3c135af2bed726a910a50696478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 005/104] fix: do not touch an empty parser stack on invalid
 bracketed text

The bracket actions are not undone when the parser backtracks, so text such as a | b % ( popped from an
empty stack.
---
 src/eval.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.cc b/src/eval.cc
index 87b321e..33740c0 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -75,7 +75,8 @@ struct close_bracket : seq<star<space>, one<')'>> {};
 
 struct expression;
 struct unary_expression;
-struct bracketed : seq<open_bracket, expression, close_bracket> {};
+// nothing else can match once a bracket is open. fail right away since the actions are already applied
+struct bracketed : if_must<open_bracket, expression, close_bracket> {};
 struct value : pad<sor<hex_integer, integer, variable, bracketed>, space> {};
 struct unary_expression0 : seq<unary_op, unary_expression> {};
 struct unary_expression : sor<value, pad<unary_expression0, space>> {};
-- 
2.43.0


From 8e63e86838e17f378a7b5deb2346f5ad206daca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:00 +0000
Subject: [PATCH 006/104] fix: refuse messages and payloads that are not JSON
 objects

Looking for a member in any other JSON value is undefined (an assertion in debug builds).
---
 src/proto.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 1ca4c3e..dbd4c23 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -179,7 +179,7 @@ namespace hgdb {
 template <typename T>
 static bool check_member(T &document, const char *member_name, std::string &error,
                          bool set_error = true) {
-    if (!document.HasMember(member_name)) {
+    if (!document.IsObject() || !document.HasMember(member_name)) {
         if (set_error) error = fmt::format("Unable to find member {0}", member_name);
         return false;
     }
@@ -750,7 +750,7 @@ std::unique_ptr<Request> Request::parse_request(const std::string &str) {
 }
 
 bool check_json(rapidjson::Document &document, status_code &status, std::string &error_reason) {
-    if (document.HasParseError()) {
+    if (document.HasParseError() || !document.IsObject()) {
         status = status_code::error;
         error_reason = "Invalid JSON file";
         return false;
@@ -1395,7 +1395,7 @@ void SymbolResponse::parse(const std::string &str) {
     using namespace rapidjson;
     Document document;
     document.Parse(str.c_str());
-    if (document.HasParseError()) return;
+    if (document.HasParseError() || !document.IsObject()) return;
 
     if (!document.HasMember("result")) return;
     auto const &result = document["result"];
-- 
2.43.0


From 5734d4161f0290d1d706301dc304f2edc5a91241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:00 +0000
Subject: [PATCH 007/104] fix: check that numbers fit the type they are read as

A negative or fractional number where an unsigned one is expected was read as garbage (an assertion in debug builds).
---
 src/proto.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index dbd4c23..308db7c 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -197,7 +197,8 @@ static std::optional<T> get_member(K &document, const char *member_name, std::st
             error = fmt::format("Invalid type for {0}", member_name);
         }
     } else if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value) {
-        if (document[member_name].IsNumber()) {
+        // negative, fractional and too large numbers are not valid either
+        if (document[member_name].template Is<T>()) {
             return document[member_name].template Get<T>();
         } else if (check_type) {
             error = fmt::format("Invalid type for {0}", member_name);
@@ -1424,7 +1425,7 @@ void SymbolResponse::parse(const std::string &str) {
             break;
         }
         case SymbolRequest::request_type::get_instance_id: {
-            if (!result.IsNumber()) return;
+            if (!result.IsUint64()) return;
             uint64_t_result = result.GetUint64();
             break;
         }
@@ -1472,7 +1473,7 @@ void SymbolResponse::parse(const std::string &str) {
         case SymbolRequest::request_type::get_execution_bp_orders: {
             if (!result.IsArray()) return;
             for (auto const &entry : result.GetArray()) {
-                if (!entry.IsNumber()) return;
+                if (!entry.IsUint64()) return;
                 uint64_t_results.emplace_back(entry.GetUint64());
             }
             break;
@@ -1486,7 +1487,7 @@ void SymbolResponse::parse(const std::string &str) {
                 std::optional<uint32_t> breakpoint_id;
                 std::optional<std::string> var_name, condition;
                 for (auto const &[key, value] : entry.GetObject()) {
-                    if ((key == "id" || key == "breakpoint_id") && value.IsNumber()) {
+                    if ((key == "id" || key == "breakpoint_id") && value.IsUint64()) {
                         breakpoint_id = value.GetUint64();
                     } else if ((key == "var" || key == "value" || key == "var_name" ||
                                 key == "variable_name") ||
-- 
2.43.0


From 18d4d693f1e83733e3b4d97dda951abd2aae11f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:00 +0000
Subject: [PATCH 008/104] fix: keep variable and condition apart in assigned
 breakpoints read from the network

Any string member, the condition in particular, was taken as the variable name, and a variable name that is
not a string was read as one.
---
 src/proto.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto.cc b/src/proto.cc
index 308db7c..bb11c44 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -1490,7 +1490,7 @@ void SymbolResponse::parse(const std::string &str) {
                     if ((key == "id" || key == "breakpoint_id") && value.IsUint64()) {
                         breakpoint_id = value.GetUint64();
                     } else if ((key == "var" || key == "value" || key == "var_name" ||
-                                key == "variable_name") ||
+                                key == "variable_name") &&
                                value.IsString()) {
                         var_name = value.GetString();
                     } else if ((key == "condition" || key == "cond") && value.IsString()) {
-- 
2.43.0


From d71cf12ac15908a0a0a4ffa667eea0abe2c903d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:00 +0000
Subject: [PATCH 009/104] fix: report a breakpoint request without a line
 number as an error

It dereferenced an empty optional.
---
 src/proto.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/proto.cc b/src/proto.cc
index bb11c44..dce6542 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -787,7 +787,11 @@ void BreakPointRequest::parse_payload(const std::string &payload) {
 
     bool line_num_required = bp_action_ == action::add;
     auto line_num = get_member<uint64_t>(document, "line_num", error_reason_, line_num_required);
-    if (line_num_required || line_num)
+    if (line_num_required && !line_num) {
+        status_code_ = status_code::error;
+        return;
+    }
+    if (line_num)
         bp_.line_num = *line_num;
     else
         bp_.line_num = 0;
-- 
2.43.0


From 2461850092e80dd03356f6b1a42fbc24335a9040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:00 +0000
Subject: [PATCH 010/104] fix: report unknown actions and monitor types as
 errors, with a reason

A monitor request with an unknown action passed as a request to add an empty variable.
---
 src/proto.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proto.cc b/src/proto.cc
index dce6542..3143da0 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -782,6 +782,7 @@ void BreakPointRequest::parse_payload(const std::string &payload) {
         bp_action_ = action::remove;
     } else {
         status_code_ = status_code::error;
+        error_reason_ = "Unknown action type " + action_str;
         return;
     }
 
@@ -827,6 +828,7 @@ void BreakPointIDRequest::parse_payload(const std::string &payload) {
         bp_action_ = action::remove;
     } else {
         status_code_ = status_code::error;
+        error_reason_ = "Unknown action type " + action_str;
         return;
     }
 
@@ -1020,6 +1022,7 @@ void MonitorRequest::parse_payload(const std::string &payload) {
     } else if (*action_type == "remove") {
         action_type_ = ActionType::remove;
     } else {
+        status_code_ = status_code::error;
         error_reason_ = "Unknown action type " + *action_type;
         return;
     }
@@ -1041,6 +1044,7 @@ void MonitorRequest::parse_payload(const std::string &payload) {
             monitor_type_ = MonitorType::changed;
         } else {
             status_code_ = status_code::error;
+            error_reason_ = "Unknown monitor type " + *monitor_type;
             return;
         }
 
-- 
2.43.0


From 728aa26d9ac42b5c75c36b789c5bcc03206ff2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:00 +0000
Subject: [PATCH 011/104] fix: keep the token of requests that are refused

Without it the client cannot tell which request failed.
---
 src/proto.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 3143da0..8e903cc 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -694,16 +694,23 @@ std::unique_ptr<Request> Request::parse_request(const std::string &str) {
     if (document.HasParseError()) return std::make_unique<ErrorRequest>("Invalid json object");
 
     std::string error;
+    // get token
+    auto token = get_member<std::string>(document, "token", error, false, false);
+    // the sender needs the token to match the error with its request
+    auto make_error = [&token](std::string reason) {
+        std::unique_ptr<Request> result = std::make_unique<ErrorRequest>(std::move(reason));
+        if (token) result->token_ = *token;
+        return result;
+    };
     auto request = get_member<bool>(document, "request", error);
-    if (!request || !(*request)) return std::make_unique<ErrorRequest>(error);
+    if (!request) return make_error(error);
+    if (!(*request)) return make_error("Not a request");
 
     auto type = get_member<std::string>(document, "type", error);
-    if (!type) return std::make_unique<ErrorRequest>(error);
+    if (!type) return make_error(error);
     // get payload
     auto payload = check_member(document, "payload", error);
-    if (!payload) return std::make_unique<ErrorRequest>(error);
-    // get token
-    auto token = get_member<std::string>(document, "token", error, false, true);
+    if (!payload) return make_error(error);
 
     auto const &type_str = *type;
     std::unique_ptr<Request> result;
-- 
2.43.0


From c6d0603b72d906616f9ee571332f248b806fe690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:00 +0000
Subject: [PATCH 012/104] fix: order variable names with indices of any size

An index that does not fit 64 bits made std::stoul throw.
---
 src/proto.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 8e903cc..9d35d60 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -502,11 +502,11 @@ bool BreakPointResponse::LocalVarNameCompare::operator()(const std::string &var1
 
             if (std::all_of(t1.begin(), t1.end(), ::isdigit) &&
                 std::all_of(t2.begin(), t2.end(), ::isdigit)) {
-                auto v1 = std::stoul(t1);
-                auto v2 = std::stoul(t2);
-                if (v1 != v2) {
-                    return v1 < v2;
-                }
+                // compare as numbers of any size
+                auto n1 = t1.substr(std::min(t1.find_first_not_of('0'), t1.size()));
+                auto n2 = t2.substr(std::min(t2.find_first_not_of('0'), t2.size()));
+                if (n1.size() != n2.size()) return n1.size() < n2.size();
+                if (n1 != n2) return n1 < n2;  // NOLINT
             } else if (t1 != t2) {
                 // for some reason clang-tidy wants us to use nullptr here
                 // https://github.com/Kuree/hgdb/runs/6166140093
-- 
2.43.0


From 3d2ea8f778661ecf18c869926e89ae63e3ec0c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:32 +0000
Subject: [PATCH 013/104] fix: keep the parts of a combined condition apart

---
 src/db.cc        | 23 ++---------------------
 src/debug.cc     |  9 +--------
 src/scheduler.cc |  7 ++-----
 src/util.cc      | 10 ++++++++++
 src/util.hh      |  3 +++
 5 files changed, 18 insertions(+), 34 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index b44e6c7..6d6871d 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -437,14 +437,7 @@ struct ScopeEntry {
         std::string cond = condition;
         auto const *p = parent;
         while (p) {
-            if (!p->condition.empty()) {
-                if (cond.empty()) {
-                    cond = p->condition;
-                } else {
-                    cond.append(" && ").append(p->condition);
-                }
-            }
-
+            cond = util::and_conditions(cond, p->condition);
             p = p->parent;
         }
         return cond;
@@ -1751,18 +1744,6 @@ private:
     }
 };
 
-std::string merge_condition(const std::string &cond1, const std::string &cond2) {
-    if (cond1.empty() && cond2.empty()) {
-        return {};
-    } else if (!cond1.empty() && cond2.empty()) {
-        return cond1;
-    } else if (cond1.empty() && !cond2.empty()) {
-        return cond2;
-    } else {
-        return fmt::format("{0} && {1}", cond1, cond2);
-    }
-}
-
 std::vector<std::tuple<uint32_t, std::string, std::string>>
 JSONSymbolTableProvider::get_assigned_breakpoints(const std::string &var_name,
                                                   uint32_t breakpoint_id) {
@@ -1804,7 +1785,7 @@ JSONSymbolTableProvider::get_assigned_breakpoints(const std::string &var_name,
         auto bp_id = instance->get_bp_id(info.assign);
         if (!bp_id) continue;
         // we need to merge condition as well
-        auto cond = merge_condition(info.assign->get_condition(), info.condition);
+        auto cond = util::and_conditions(info.assign->get_condition(), info.condition);
         result.emplace_back(std::make_tuple(*bp_id, info.rtl_value, cond));
     }
 
diff --git a/src/debug.cc b/src/debug.cc
index 9aaa5c4..57d81b8 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1014,14 +1014,7 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                     return;
                 }
                 // merge data_condition
-                std::string bp_condition;
-                if (req.condition().empty())
-                    bp_condition = data_condition;
-                else if (bp_condition.empty())
-                    bp_condition = req.condition();
-                else
-                    // merge these two
-                    bp_condition = fmt::format("{0} && {1}", req.condition(), data_condition);
+                auto bp_condition = util::and_conditions(req.condition(), data_condition);
                 auto *bp =
                     scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, dry_run);
                 if (!bp) {
diff --git a/src/scheduler.cc b/src/scheduler.cc
index 5a612b3..3ddbc68 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -346,11 +346,8 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
                                            const std::string &target_var, bool dry_run,
                                            DebuggerNamespace *target_ns) {
     // add them to the eval vector
-    std::string cond = "1";
-    if (!db_bp.condition.empty()) cond = db_bp.condition;
-    if (!bp_info.condition.empty()) {
-        cond.append(" && " + bp_info.condition);
-    }
+    std::string cond = util::and_conditions(db_bp.condition, bp_info.condition);
+    if (cond.empty()) cond = "1";
 
     auto insert_bp = [bp_type, this, &db_bp, cond,
                       dry_run](DebuggerNamespace *ns) -> DebugBreakPoint * {
diff --git a/src/util.cc b/src/util.cc
index 2a611b5..a3e4808 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -22,6 +22,16 @@ std::vector<std::string> get_tokens(const std::string &line, const std::string &
     return result;
 }
 
+std::string and_conditions(const std::string &cond1, const std::string &cond2) {
+    if (cond1.empty()) return cond2;
+    if (cond2.empty()) return cond1;
+    // only || binds less tightly than &&
+    auto wrap = [](const std::string &cond) {
+        return cond.find("||") == std::string::npos ? cond : "(" + cond + ")";
+    };
+    return wrap(cond1) + " && " + wrap(cond2);
+}
+
 [[maybe_unused]] std::optional<int64_t> stol(const std::string &value) {
     try {
         return std::stol(value);
diff --git a/src/util.hh b/src/util.hh
index 590c11d..5d131fc 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -28,6 +28,9 @@ std::string join(T begin, T end, const std::string &sep) {
     return stream.str();
 }
 
+// the conjunction of two conditions, either of which can be empty
+std::string and_conditions(const std::string &cond1, const std::string &cond2);
+
 [[maybe_unused]] std::optional<int64_t> stol(const std::string &value);
 std::optional<uint64_t> stoul(const std::string &value);
 
-- 
2.43.0


From 8e46df9b0aeae6d5f6a29c95ecb777fd092805b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:32 +0000
Subject: [PATCH 014/104] fix: a statement belongs to the innermost file only

---
 src/db.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 6d6871d..85cb141 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1173,9 +1173,9 @@ private:
         while (p) {
             if (p->type == db::json::ScopeEntryType::Block) {
                 auto const *block = reinterpret_cast<const db::json::BlockEntry *>(p);
-                if (blocks.find(block) != blocks.end() &&
-                    is_filename_equivalent(filename_, block->filename)) {
-                    return block;
+                // the innermost file name is the one that counts
+                if (blocks.find(block) != blocks.end()) {
+                    return is_filename_equivalent(filename_, block->filename) ? block : nullptr;
                 }
             }
 
-- 
2.43.0


From 709067e2cf89dd52f7654f2408ec57c8fb8c41f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:32 +0000
Subject: [PATCH 015/104] fix: find breakpoints by a relative file name with
 directories

---
 src/db.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 85cb141..e460c02 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1153,12 +1153,12 @@ private:
         // the query filename might mismatch with the filename we have, i.e. relative vs. absolute
         // Chisel only uses basename, but the users requests always send absolute name
         if (ref_path.empty()) return false;
+        if (query_path == ref_path) return true;
         if (is_relative(ref_path)) {
             auto f = base_name(query_path);
             return ref_path == f;
-        } else {
-            return query_path == ref_path;
         }
+        return false;
     }
 
     static std::string base_name(const std::string &filename) {
-- 
2.43.0


From cb02860cca1b0e8c95703e365b5071f087cd02f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:32 +0000
Subject: [PATCH 016/104] fix: look up an empty instance name without touching
 an empty list

---
 src/db.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/db.cc b/src/db.cc
index e460c02..3a26318 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1361,6 +1361,7 @@ std::optional<uint64_t> JSONSymbolTableProvider::get_instance_id(uint64_t breakp
 
 std::optional<uint64_t> JSONSymbolTableProvider::get_instance_id(const std::string &instance_name) {
     auto instances = util::get_tokens(instance_name, ".");
+    if (instances.empty()) return std::nullopt;
     for (auto const &root : roots_) {
         if (instances[0] == root->name) {
             auto const *p = root.get();
-- 
2.43.0


From 97b4a3d849ef178058acfda893fee723017e7600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:32 +0000
Subject: [PATCH 017/104] fix: look up assignments of any variable name

---
 src/db.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 3a26318..978cb74 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1683,7 +1683,7 @@ private:
     // NOLINTNEXTLINE
     [[nodiscard]] std::optional<Info> rtl_equivalent(const db::json::AssignEntry &assign) const {
         // the problem is the front end name maybe an indexed variable
-        if (assign.has_index()) {
+        if (assign.has_index() && !var_names_.empty()) {
             // this is an indexed variable
             // make sure up to the index we are the same
             // notice that once index is present, it's illegal to have multiple vars
@@ -1699,8 +1699,7 @@ private:
                             // we have found it. create a condition now
                             auto cond = fmt::format("{0} == {1}", index.var->value, *idx);
                             // and rtl value
-                            auto value =
-                                fmt::format(fmt::format("{0}[{1}]", assign.vars[0]->value, *idx));
+                            auto value = fmt::format("{0}[{1}]", assign.vars[0]->value, *idx);
                             return Info{&assign, value, cond};
                         }
                     }
-- 
2.43.0


From d892278146bcf046d4d3e35a8949db3d39e8d9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:32 +0000
Subject: [PATCH 018/104] fix: skip constants that are not 64-bit numbers

---
 src/symbol.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index 0a6d542..e44c630 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -174,8 +174,8 @@ std::unordered_map<std::string, int64_t> SymbolTableProvider::get_context_static
         auto const &[ctx, var] = *it;
         if (!var.is_rtl) {
             if (std::all_of(var.value.begin(), var.value.end(), ::isdigit)) {
-                auto v = std::stoll(var.value);
-                result.emplace(ctx.name, v);
+                // values that are not 64-bit numbers are not available
+                if (auto v = util::stol(var.value)) result.emplace(ctx.name, *v);
             }
         }
     }
-- 
2.43.0


From df9285eee931965c0700ca8dc47d817b3f698e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:32 +0000
Subject: [PATCH 019/104] fix: only a whole instance name makes a signal name
 absolute

---
 src/symbol.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index e44c630..7116c7f 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -66,7 +66,7 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_breakpoint(
         auto const &[ctx, var] = *it;
         if (rtl_equivalent(ctx.name, scoped_name) || var.value == scoped_name) {
             if (var.is_rtl) {
-                if (var.value.starts_with(*inst_name)) {
+                if (var.value.starts_with(*inst_name + ".")) {
                     return var.value;
                 } else {
                     return fmt::format("{0}.{1}", *inst_name, var.value);
@@ -87,7 +87,7 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_instance(
     for (auto const &[gen, var] : vars) {
         if (rtl_equivalent(gen.name, scoped_name) || var.value == scoped_name) {
             if (var.is_rtl) {
-                if (var.value.starts_with(*inst_name)) {
+                if (var.value.starts_with(*inst_name + ".")) {
                     return var.value;
                 } else {
                     return fmt::format("{0}.{1}", *inst_name, var.value);
-- 
2.43.0


From 6e742dc3a2bdbc8ffac584bb2f5ce07a71c3c1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:53 +0000
Subject: [PATCH 020/104] fix: variables used by reference can be delayed too

---
 src/db.cc | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 978cb74..56d3d6c 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -706,6 +706,23 @@ std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONPar
     return result;
 }
 
+void set_var_def_value(const rapidjson::Value &value, VarDef &var) {
+    var.name = value["name"].GetString();
+    var.value = value["value"].GetString();
+    var.rtl = value["rtl"].GetBool();
+
+    if (value.HasMember("type")) {
+        std::string t = value["type"].GetString();
+        if (t == "delay") {
+            var.type = VariableType::delay;
+
+            if (value.HasMember("depth")) {
+                var.depth = value["depth"].GetUint();
+            }
+        }
+    }
+}
+
 std::vector<std::shared_ptr<VarDef>> parse_var(const rapidjson::Value &value, JSONParseInfo &info) {
     std::shared_ptr<VarDef> var;
     if (value.IsString()) {
@@ -717,20 +734,7 @@ std::vector<std::shared_ptr<VarDef>> parse_var(const rapidjson::Value &value, JS
         }
     } else {
         var = std::make_shared<VarDef>();
-        var->name = value["name"].GetString();
-        var->value = value["value"].GetString();
-        var->rtl = value["rtl"].GetBool();
-
-        if (value.HasMember("type")) {
-            std::string t = value["type"].GetString();
-            if (t == "delay") {
-                var->type = VariableType::delay;
-
-                if (value.HasMember("depth")) {
-                    var->depth = value["depth"].GetUint();
-                }
-            }
-        }
+        set_var_def_value(value, *var);
     }
 
     if (!var) {
@@ -746,9 +750,7 @@ void parse_var_defs(const rapidjson::Document &document, JSONParseInfo &info) {
     auto variables = document["variables"].GetArray();
     for (auto const &var_def : variables) {
         auto var = std::make_shared<VarDef>();
-        var->name = var_def["name"].GetString();
-        var->value = var_def["value"].GetString();
-        var->rtl = var_def["rtl"].GetBool();
+        set_var_def_value(var_def, *var);
         std::string id = var_def["id"].GetString();
         info.var_defs.emplace(id, var);
     }
-- 
2.43.0


From 8d1807c9394668470781fcf44d115148c382b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:53 +0000
Subject: [PATCH 021/104] fix: refuse symbol tables with dangling variables and
 numbers out of range

---
 src/db.cc | 50 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 56d3d6c..4ed3d0a 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -583,12 +583,20 @@ std::shared_ptr<VarDeclEntry> parse_var_decl(const rapidjson::Value &value, JSON
 std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONParseInfo &info);
 std::vector<std::shared_ptr<VarDef>> parse_var(const rapidjson::Value &value, JSONParseInfo &info);
 
-void set_scope_entry_value(const rapidjson::Value &value, ScopeEntry &result) {
+uint32_t get_uint(const rapidjson::Value &value, const char *name, JSONParseInfo &info) {
+    auto const &v = value[name];
+    if (v.IsUint()) return v.GetUint();
+    info.error_reason = fmt::format("Invalid value for {0}", name);
+    return 0;
+}
+
+void set_scope_entry_value(const rapidjson::Value &value, ScopeEntry &result,
+                           JSONParseInfo &info) {
     if (value.HasMember("line")) {
-        result.line = value["line"].GetUint();
+        result.line = get_uint(value, "line", info);
     }
     if (value.HasMember("column")) {
-        result.column = value["column"].GetUint();
+        result.column = get_uint(value, "column", info);
     }
     if (value.HasMember("condition")) {
         result.condition = value["condition"].GetString();
@@ -608,7 +616,7 @@ std::shared_ptr<ScopeEntry> parse_scope_entry(const rapidjson::Value &value, JSO
         result = parse_assign(value, info);
     } else if (type == "none") {
         result = std::make_shared<GenericEntry>();
-        set_scope_entry_value(value, *result);
+        set_scope_entry_value(value, *result, info);
     }
     if (result) {
         result->parent = info.current_scope;
@@ -623,7 +631,7 @@ std::shared_ptr<ModuleDef> parse_module_def(const rapidjson::Value &value, JSONP
 
     result->name = value["name"].GetString();
     info.module_defs.emplace(result->name, result);
-    set_scope_entry_value(value, *result);
+    set_scope_entry_value(value, *result, info);
 
     // variables
     auto vars = value["variables"].GetArray();
@@ -660,7 +668,7 @@ std::shared_ptr<ModuleDef> parse_module_def(const rapidjson::Value &value, JSONP
 
 std::shared_ptr<BlockEntry> parse_block_entry(const rapidjson::Value &value, JSONParseInfo &info) {
     auto result = std::make_unique<BlockEntry>();
-    set_scope_entry_value(value, *result);
+    set_scope_entry_value(value, *result, info);
     if (value.HasMember("filename")) {
         result->filename = value["filename"].GetString();
     }
@@ -680,7 +688,7 @@ std::shared_ptr<BlockEntry> parse_block_entry(const rapidjson::Value &value, JSO
 
 std::shared_ptr<VarDeclEntry> parse_var_decl(const rapidjson::Value &value, JSONParseInfo &info) {
     auto result = std::make_shared<VarDeclEntry>();
-    set_scope_entry_value(value, *result);
+    set_scope_entry_value(value, *result, info);
 
     result->vars = parse_var(value["variable"], info);
 
@@ -688,7 +696,7 @@ std::shared_ptr<VarDeclEntry> parse_var_decl(const rapidjson::Value &value, JSON
 }
 std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONParseInfo &info) {
     auto result = std::make_shared<AssignEntry>();
-    set_scope_entry_value(value, *result);
+    set_scope_entry_value(value, *result, info);
 
     result->vars = parse_var(value["variable"], info);
 
@@ -696,9 +704,11 @@ std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONPar
         auto const &indices = value["indices"];
         for (auto const &index : indices.GetArray()) {
             AssignEntry::IndexInfo idx;
-            idx.var = parse_var(index["var"], info)[0];
-            idx.min = index["min"].GetUint();
-            idx.max = index["max"].GetUint();
+            auto vars = parse_var(index["var"], info);
+            if (vars.empty()) continue;
+            idx.var = vars[0];
+            idx.min = get_uint(index, "min", info);
+            idx.max = get_uint(index, "max", info);
             result->indices.emplace_back(idx);
         }
     }
@@ -706,7 +716,7 @@ std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONPar
     return result;
 }
 
-void set_var_def_value(const rapidjson::Value &value, VarDef &var) {
+void set_var_def_value(const rapidjson::Value &value, VarDef &var, JSONParseInfo &info) {
     var.name = value["name"].GetString();
     var.value = value["value"].GetString();
     var.rtl = value["rtl"].GetBool();
@@ -717,7 +727,7 @@ void set_var_def_value(const rapidjson::Value &value, VarDef &var) {
             var.type = VariableType::delay;
 
             if (value.HasMember("depth")) {
-                var.depth = value["depth"].GetUint();
+                var.depth = get_uint(value, "depth", info);
             }
         }
     }
@@ -734,7 +744,7 @@ std::vector<std::shared_ptr<VarDef>> parse_var(const rapidjson::Value &value, JS
         }
     } else {
         var = std::make_shared<VarDef>();
-        set_var_def_value(value, *var);
+        set_var_def_value(value, *var, info);
     }
 
     if (!var) {
@@ -750,7 +760,7 @@ void parse_var_defs(const rapidjson::Document &document, JSONParseInfo &info) {
     auto variables = document["variables"].GetArray();
     for (auto const &var_def : variables) {
         auto var = std::make_shared<VarDef>();
-        set_var_def_value(var_def, *var);
+        set_var_def_value(var_def, *var, info);
         std::string id = var_def["id"].GetString();
         info.var_defs.emplace(id, var);
     }
@@ -1096,6 +1106,12 @@ JSONSymbolTableProvider::JSONSymbolTableProvider(const std::string &filename) {
         roots_ = db::json::parse(document, info);
 
         reordering_ = reordering(document);
+
+        if (!info.error_reason.empty()) {
+            // we have an error
+            log::log(log::log_level::error, info.error_reason);
+            roots_.clear();
+        }
     }
     parse_db();
 }
@@ -1852,13 +1868,13 @@ bool JSONSymbolTableProvider::parse(const std::string &db_content) {
         roots_ = db::json::parse(document, info);
         reordering_ = reordering(document);
 
-        parse_db();
-
         if (!info.error_reason.empty()) {
             // we have an error
             log::log(log::log_level::error, info.error_reason);
             roots_.clear();
         }
+
+        parse_db();
     }
     return !roots_.empty();
 }
-- 
2.43.0


From df981b5181896c29dff7d117b306e2f1683fac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:53 +0000
Subject: [PATCH 022/104] fix: skip attributes without name or value

---
 src/db.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/db.cc b/src/db.cc
index 4ed3d0a..4288495 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -770,6 +770,7 @@ void parse_attributes(const rapidjson::Document &document, JSONParseInfo &info)
     if (!document.HasMember("attributes")) return;
     auto attributes = document["attributes"].GetArray();
     for (auto const &attr : attributes) {
+        if (!attr.HasMember("name") || !attr.HasMember("value")) continue;
         std::string name = attr["name"].GetString();
         std::string value = attr["value"].GetString();
         info.attributes.emplace_back(std::make_pair(name, value));
-- 
2.43.0


From 1ddbb81fbb1c9503d45d730ece8f234e6fdcd649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:53 +0000
Subject: [PATCH 023/104] fix: do not keep a pointer to a repeated module
 definition

---
 src/db.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db.cc b/src/db.cc
index 4288495..669b333 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -806,7 +806,8 @@ std::vector<std::shared_ptr<Instance>> parse(rapidjson::Document &document, JSON
         // notice that if the entry type is not a module, we are effectively discarding it
         if (parsed_entry->type == ScopeEntryType::Module) {
             auto m = std::reinterpret_pointer_cast<ModuleDef>(parsed_entry);
-            if (tops.find(m->name) != tops.end()) {
+            // the first definition of a name is the one that counts
+            if (tops.find(m->name) != tops.end() && info.module_defs.at(m->name) == m) {
                 // making a new instance. notice that the name is the same as module name
                 auto i = std::make_shared<Instance>();
                 i->name = m->name;
-- 
2.43.0


From 0b4a3c02207348ce4c5acb361308409161a9d2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:53 +0000
Subject: [PATCH 024/104] fix: refuse modules that contain themselves

---
 src/db.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 669b333..5e82c5e 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1882,8 +1882,13 @@ bool JSONSymbolTableProvider::parse(const std::string &db_content) {
 }
 
 void resolve_module_instances(db::json::ModuleDef &def, db::json::ModuleDefDict &defs,
-                              bool &has_error) {
+                              std::set<const db::json::ModuleDef *> &parents, bool &has_error) {
     if (has_error) return;
+    if (!parents.emplace(&def).second) {
+        // a module cannot contain itself
+        has_error = true;
+        return;
+    }
     std::set<db::json::ModuleDef *> subs;
     for (auto const &[name, module] : def.unresolved_instances) {
         if (defs.find(module) == defs.end()) {
@@ -1898,8 +1903,9 @@ void resolve_module_instances(db::json::ModuleDef &def, db::json::ModuleDefDict
     def.unresolved_instances.clear();
     // recursively check the child instances
     for (auto *m : subs) {
-        resolve_module_instances(*m, defs, has_error);
+        resolve_module_instances(*m, defs, parents, has_error);
     }
+    parents.erase(&def);
 }
 
 void JSONSymbolTableProvider::parse_db() {
@@ -1911,8 +1917,9 @@ void JSONSymbolTableProvider::parse_db() {
         }
         // resolve the module names
         bool has_error = false;
+        std::set<const db::json::ModuleDef *> parents;
         resolve_module_instances(*(const_cast<db::json::ModuleDef *>(root->definition)),
-                                 module_defs_, has_error);
+                                 module_defs_, parents, has_error);
         if (has_error) {
             log::log(log::log_level::error, "Unable to resolve all referenced instances");
             roots_.clear();
-- 
2.43.0


From 38e2d8016f236607a261b701255572cb38b80c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:11 +0000
Subject: [PATCH 025/104] fix: write quotes and control characters in symbol
 tables as JSON wants them

---
 include/json.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/json.hh b/include/json.hh
index 6eb814d..2defec4 100644
--- a/include/json.hh
+++ b/include/json.hh
@@ -84,8 +84,12 @@ private:
     static std::string escape(std::string_view value) {
         std::stringstream ss;
         for (auto c : value) {
-            if (c == '\\') {
-                ss << '\\' << '\\';
+            if (c == '\\' || c == '"') {
+                ss << '\\' << c;
+            } else if (static_cast<unsigned char>(c) < 0x20) {
+                // control characters
+                static auto constexpr hex = "0123456789abcdef";
+                ss << "\\u00" << hex[c >> 4] << hex[c & 0xf];
             } else {
                 ss << c;
             }
-- 
2.43.0


From ff355fd512296115430fbb122f0a89633dbc0081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:11 +0000
Subject: [PATCH 026/104] fix: a constant hidden by a newer definition is not
 visible

---
 src/symbol.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/symbol.cc b/src/symbol.cc
index 7116c7f..e67691b 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -2,6 +2,7 @@
 
 #include <filesystem>
 #include <mutex>
+#include <unordered_set>
 
 #include "asio.hpp"
 #include "db.hh"
@@ -168,10 +169,13 @@ std::unordered_map<std::string, int64_t> SymbolTableProvider::get_context_static
     uint32_t breakpoint_id) {
     auto vars = get_context_variables(breakpoint_id);
     std::unordered_map<std::string, int64_t> result;
+    std::unordered_set<std::string> names;
 
     // NOLINTNEXTLINE
     for (auto it = vars.rbegin(); it != vars.rend(); it++) {
         auto const &[ctx, var] = *it;
+        // only the newest definition is visible
+        if (!names.emplace(ctx.name).second) continue;
         if (!var.is_rtl) {
             if (std::all_of(var.value.begin(), var.value.end(), ::isdigit)) {
                 // values that are not 64-bit numbers are not available
-- 
2.43.0


From 8a65039377b48be683ab2fab8f3b0f08bdbda0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:11 +0000
Subject: [PATCH 027/104] fix: find every delayed variable of a merged
 assignment

---
 src/db.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 5e82c5e..47d0554 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1538,7 +1538,7 @@ JSONSymbolTableProvider::get_context_delayed_variables(uint32_t breakpoint_id) {
 
         } else if (pre->type == db::json::ScopeEntryType::Assign) {
             auto const *assign = reinterpret_cast<const db::json::AssignEntry *>(pre);
-            bool add_delay = assign->vars[0]->type == VariableType::delay;
+            bool add_delay = false;
             if (assign->has_index()) [[unlikely]] {
                 // need to be careful about the indexed value here
                 for (auto const &indexed : assign->indices) {
@@ -1549,8 +1549,8 @@ JSONSymbolTableProvider::get_context_delayed_variables(uint32_t breakpoint_id) {
                 }
             }
 
-            if (add_delay) {
-                for (auto const &var : assign->vars) {
+            for (auto const &var : assign->vars) {
+                if (add_delay || var->type == VariableType::delay) {
                     vars.emplace_back(std::make_pair(var->name, var.get()));
                 }
             }
-- 
2.43.0


From b2813349784fe5bf6b6db49cda37b075dbb021dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:11 +0000
Subject: [PATCH 028/104] fix: a path mapping applies inside its directory only

---
 src/symbol.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index e67691b..4d58ea4 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -19,10 +19,17 @@ auto constexpr WS_SCHEMA = "ws://";
 
 namespace hgdb {
 
+bool is_inside(const std::string &path, const std::string &dir) {
+    // a common prefix is not enough: /a/bc is not in /a/b
+    if (!path.starts_with(dir)) return false;
+    return dir.empty() || dir.back() == '/' || path.size() == dir.size() ||
+           path[dir.size()] == '/';
+}
+
 std::string resolve(const std::string &src_path, const std::string &dst_path,
                     const std::string &target) {
     namespace fs = std::filesystem;
-    if (src_path.empty() || target.starts_with(src_path)) [[likely]] {
+    if (is_inside(target, src_path)) [[likely]] {
         std::error_code ec;
         auto path = fs::relative(target, src_path, ec);
         if (ec.value()) [[unlikely]]
@@ -196,7 +203,7 @@ std::string SymbolTableProvider::resolve_filename_to_db(const std::string &filen
     if (src_remap_.empty()) [[likely]]
         return filename;
     for (auto const &[src_path, dst_path] : src_remap_) {
-        if (filename.starts_with(src_path)) {
+        if (is_inside(filename, src_path)) {
             return resolve(src_path, dst_path, filename);
         }
     }
@@ -209,7 +216,7 @@ std::string SymbolTableProvider::resolve_filename_to_client(const std::string &f
     if (src_remap_.empty()) [[likely]]
         return filename;
     for (auto const &[dst_path, src_path] : src_remap_) {
-        if (src_path.empty() || filename.starts_with(src_path)) {
+        if (is_inside(filename, src_path)) {
             return resolve(src_path, dst_path, filename);
         }
     }
-- 
2.43.0


From 58e3f1e61f5479d3088472e6526abe217b5839ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:11 +0000
Subject: [PATCH 029/104] fix: apply the path mapping to JSON symbol tables

---
 src/db.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 47d0554..9475737 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1265,10 +1265,11 @@ std::vector<BreakPoint> JSONSymbolTableProvider::get_breakpoints(const std::stri
                                                                  uint32_t col_num) {
     std::vector<BreakPoint> result;
     for (auto const &root : roots_) {
-        BreakPointVisitor v(filename, line_num, col_num);
+        BreakPointVisitor v(resolve_filename_to_db(filename), line_num, col_num);
         v.visit(*root);
         result.reserve(result.size() + v.results.size());
         for (auto &bp : v.results) {
+            bp.filename = resolve_filename_to_client(bp.filename);
             result.emplace_back(std::move(bp));
         }
     }
@@ -1278,10 +1279,11 @@ std::vector<BreakPoint> JSONSymbolTableProvider::get_breakpoints(const std::stri
 std::vector<BreakPoint> JSONSymbolTableProvider::get_breakpoints(const std::string &filename) {
     std::vector<BreakPoint> result;
     for (auto const &root : roots_) {
-        BreakPointVisitor v(filename, 0, 0);
+        BreakPointVisitor v(resolve_filename_to_db(filename), 0, 0);
         v.visit(*root);
         result.reserve(result.size() + v.results.size());
         for (auto &bp : v.results) {
+            bp.filename = resolve_filename_to_client(bp.filename);
             result.emplace_back(std::move(bp));
         }
     }
@@ -1294,6 +1296,7 @@ std::optional<BreakPoint> JSONSymbolTableProvider::get_breakpoint(uint32_t break
         BreakPointVisitor v(breakpoint_id);
         v.visit(*root);
         if (!v.results.empty()) [[likely]] {
+            v.results[0].filename = resolve_filename_to_client(v.results[0].filename);
             return std::move(v.results[0]);
         }
     }
@@ -1657,7 +1660,7 @@ std::vector<std::string> JSONSymbolTableProvider::get_filenames() {
         FilenameVisitor v;
         v.visit(*root->definition);
         result.reserve(result.size() + v.names.size());
-        result.insert(result.end(), v.names.begin(), v.names.end());
+        for (auto const &name : v.names) result.emplace_back(resolve_filename_to_client(name));
     }
     return result;
 }
-- 
2.43.0


From a7a76d2cb6656735943f78d74e6a57599e708295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:14 +0000
Subject: [PATCH 030/104] fix: map paths without looking at local files, and
 absolute ones not as relative

---
 src/symbol.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index 4d58ea4..293054d 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -22,18 +22,18 @@ namespace hgdb {
 bool is_inside(const std::string &path, const std::string &dir) {
     // a common prefix is not enough: /a/bc is not in /a/b
     if (!path.starts_with(dir)) return false;
-    return dir.empty() || dir.back() == '/' || path.size() == dir.size() ||
-           path[dir.size()] == '/';
+    // the empty directory holds the relative names
+    if (dir.empty()) return !path.starts_with('/');
+    return dir.back() == '/' || path.size() == dir.size() || path[dir.size()] == '/';
 }
 
 std::string resolve(const std::string &src_path, const std::string &dst_path,
                     const std::string &target) {
     namespace fs = std::filesystem;
     if (is_inside(target, src_path)) [[likely]] {
-        std::error_code ec;
-        auto path = fs::relative(target, src_path, ec);
-        if (ec.value()) [[unlikely]]
-            return target;
+        // the paths may belong to another machine: do not look at the files themselves
+        fs::path path = target;
+        if (!src_path.empty()) path = path.lexically_relative(src_path);
         fs::path start = dst_path;
         auto r = start / path;
         return r;
-- 
2.43.0


From 8f850678a1b1ad2b5bfd5e951b3aea72245e1ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:49 +0000
Subject: [PATCH 031/104] fix: lock the connections of the server wherever they
 are used

Messages are sent from the simulator's thread while clients connect and
disconnect on the server's one. The disconnect callback runs without the
lock, since it may use the server.
---
 src/server.cc | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/server.cc b/src/server.cc
index 1f5865f..7b697c1 100644
--- a/src/server.cc
+++ b/src/server.cc
@@ -26,17 +26,19 @@ DebugServer::DebugServer(bool enable_logging) {
     };
     // on disconnection
     auto on_disconnect = [this](websocketpp::connection_hdl hdl) {
-        std::lock_guard<std::mutex> guard{connections_lock_};
-        auto conn = server_.get_con_from_hdl(std::move(hdl));
-        // not efficient, but we assume client won't disconnect often
-        for (auto const &[id, c] : connections_) {
-            if (conn == c) {
-                connections_.erase(id);
-                connection_id_map_.erase(conn.get());
-                break;
+        bool all_disconnected;
+        {
+            std::lock_guard<std::mutex> guard{connections_lock_};
+            auto conn = server_.get_con_from_hdl(std::move(hdl));
+            auto pos = connection_id_map_.find(conn.get());
+            if (pos != connection_id_map_.end()) {
+                connections_.erase(pos->second);
+                connection_id_map_.erase(pos);
             }
+            all_disconnected = connections_.empty();
         }
-        if (connections_.empty() && on_all_client_disconnect_) {
+        // the callback is free to use the server
+        if (all_disconnected && on_all_client_disconnect_) {
             (*on_all_client_disconnect_)();
         }
     };
@@ -66,7 +68,10 @@ void DebugServer::stop() {
     {
         std::lock_guard guard(connections_lock_);
         for (auto const &[id, conn] : connections_) {
-            conn->close(websocketpp::close::status::going_away, "Server stopped upon user request");
+            // don't care about clients that are closing already
+            websocketpp::lib::error_code ec;
+            conn->close(websocketpp::close::status::going_away, "Server stopped upon user request",
+                        ec);
         }
         connections_.clear();
         connection_id_map_.clear();
@@ -75,12 +80,14 @@ void DebugServer::stop() {
 }
 
 void DebugServer::send(const std::string &payload) {
+    std::lock_guard guard(connections_lock_);
     for (const auto &[id, conn] : connections_) {
         conn->send(payload);
     }
 }
 
 void DebugServer::send(const std::string &payload, const std::string &topic) {
+    std::lock_guard guard(connections_lock_);
     if (topics_.find(topic) != topics_.end()) [[likely]] {
         auto const &ids = topics_.at(topic);
         // to ensure high performance during runtime, we don't do clean up
@@ -94,6 +101,7 @@ void DebugServer::send(const std::string &payload, const std::string &topic) {
 }
 
 void DebugServer::send(const std::string &payload, uint64_t conn_id) {
+    std::lock_guard guard(connections_lock_);
     if (connections_.find(conn_id) != connections_.end()) [[likely]] {
         connections_.at(conn_id)->send(payload);
     }
@@ -105,7 +113,14 @@ void DebugServer::set_on_message(
                                        const raw_message &msg) {
         auto str = msg->get_payload();
         auto conn = server_.get_con_from_hdl(hdl);
-        auto id = connection_id_map_.at(conn.get());
+        uint64_t id;
+        {
+            std::lock_guard guard(connections_lock_);
+            auto pos = connection_id_map_.find(conn.get());
+            // the server has been stopped
+            if (pos == connection_id_map_.end()) return;
+            id = pos->second;
+        }
         callback(str, id);
     };
     server_.set_message_handler(on_message);
@@ -116,10 +131,12 @@ void DebugServer::set_on_call_client_disconnect(const std::function<void()> &fun
 }
 
 void DebugServer::add_to_topic(const std::string &topic, uint64_t conn_id) {
+    std::lock_guard guard(connections_lock_);
     topics_[topic].emplace(conn_id);
 }
 
 void DebugServer::remove_from_topic(const std::string &topic, uint64_t conn_id) {
+    std::lock_guard guard(connections_lock_);
     if (topics_[topic].find(conn_id) != topics_[topic].end()) {
         topics_[topic].erase(conn_id);
     }
-- 
2.43.0


From a611dcd1e7f2164954094bae72ecb2206c8d8f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:08 +0000
Subject: [PATCH 032/104] fix: serialise requests and breakpoint evaluation

The server thread changes the breakpoints, the symbol table, the options
and the monitors while the simulator's thread uses them.
---
 src/debug.cc | 32 ++++++++++++++++++++++++++------
 src/debug.hh |  5 +++++
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 57d81b8..f4862e7 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -31,6 +31,7 @@ Debugger::Debugger(std::shared_ptr<AVPIProvider> vpi) {
 
     // set up some call backs
     server_->set_on_call_client_disconnect([this]() {
+        std::lock_guard guard(state_lock_);
         if (detach_after_disconnect_) detach();
     });
 
@@ -45,7 +46,9 @@ bool Debugger::initialize_db(const std::string &filename) {
 }
 
 void Debugger::initialize_db(std::unique_ptr<SymbolTableProvider> db) {
-    // reset db_ for every new connection
+    std::lock_guard guard(state_lock_);
+    // reset db_ for every new connection, and the scheduler, which refers to it
+    scheduler_ = nullptr;
     db_ = nullptr;
     if (!db) return;
     db_ = std::move(db);
@@ -99,28 +102,39 @@ void Debugger::run() {
 
 void Debugger::stop() {
     server_->stop();
+    std::lock_guard guard(state_lock_);
     if (is_running_.load()) {
         // just detach it from the simulator
         detach();
     }
 }
 
+void Debugger::pause(std::unique_lock<std::recursive_mutex> &state) {
+    state.unlock();
+    lock_.wait();
+    state.lock();
+}
+
 void Debugger::eval() {
+    // requests go first. otherwise a busy simulation may lock them out
+    while (pending_requests_.load() > 0) std::this_thread::yield();
+    std::unique_lock state(state_lock_);
     perf::PerfCount perf("eval loop", perf_count_);
     // if we set to pause at posedge, need to do that at the very beginning!
     if (pause_at_posedge) [[unlikely]] {
-        lock_.wait();
+        pause(state);
     }
+    // no symbol table, nothing to evaluate
+    if (!scheduler_) return;
     // the function that actually triggers breakpoints!
-    // notice that there is a hidden race condition
     // when we trigger the breakpoint, the runtime (simulation side) will be paused via a lock.
     // however, the server side can still take breakpoint requests, hence modifying the
-    // breakpoints_.
+    // breakpoints_, or load another symbol table
     log_info("Start breakpoint evaluation...");
     start_breakpoint_evaluation();  // clean the state and fetch values
 
     // main loop to fetch breakpoints
-    while (true) {
+    while (scheduler_) {
         std::vector<DebugBreakPoint *> bps;
         {
             perf::PerfCount perf_get_bp("next breakpoints", perf_count_);
@@ -142,7 +156,7 @@ void Debugger::eval() {
             // also send any breakpoint values
             send_monitor_values(MonitorRequest::MonitorType::breakpoint);
             // then pause the execution
-            lock_.wait();
+            pause(state);
         }
     }
 
@@ -166,6 +180,8 @@ std::vector<RTLSimulatorClient *> Debugger::rtl_clients() const {
 }
 
 void Debugger::handle_assert() {
+    std::lock_guard guard(state_lock_);
+    if (!scheduler_) return;
     auto assert_info = namespaces_.default_rtl()->get_assert_info();
     if (!assert_info) {
         log_error("Incorrect usage of hgdb assertion");
@@ -190,6 +206,7 @@ void Debugger::handle_assert() {
 }
 
 void Debugger::set_option(const std::string &name, bool value) {
+    std::lock_guard guard(state_lock_);
     auto options = get_options();
     options.set_option(name, value);
 }
@@ -246,6 +263,9 @@ void Debugger::detach() {
 void Debugger::on_message(const std::string &message, uint64_t conn_id) {
     // server can only receive request
     auto req = Request::parse_request(message);
+    pending_requests_++;
+    std::lock_guard guard(state_lock_);
+    pending_requests_--;
     if (req->status() != status_code::success) {
         // send back error message
         auto resp = GenericResponse(status_code::error, *req, req->error_reason());
diff --git a/src/debug.hh b/src/debug.hh
index fdf35dd..c87594f 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -66,6 +66,10 @@ private:
     // runtime lock
     RuntimeLock lock_;
     std::atomic<bool> is_running_ = false;
+    // requests are served in the server thread and breakpoints are evaluated in the simulator's
+    // one. both work on the state below under this lock, which is given up while paused
+    std::recursive_mutex state_lock_;
+    std::atomic<uint64_t> pending_requests_ = 0;
 
     // used for scheduler
     std::unique_ptr<Scheduler> scheduler_;
@@ -100,6 +104,7 @@ private:
     bool use_signal_cache_ = false;
 
     void detach();
+    void pause(std::unique_lock<std::recursive_mutex> &state);
 
     // message handler
     void on_message(const std::string &message, uint64_t conn_id);
-- 
2.43.0


From 93f2c5d2fa8d6f21500a0fb3e942c63239ac3e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:08 +0000
Subject: [PATCH 033/104] fix: a command sent before a breakpoint is hit does
 not resume it

---
 src/debug.cc  | 2 ++
 src/thread.cc | 5 +++++
 src/thread.hh | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index f4862e7..77971f9 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -151,6 +151,8 @@ void Debugger::eval() {
         }
 
         if (!result.empty()) {
+            // only commands sent from now on resume the simulation
+            lock_.reset();
             // send the breakpoint hit information
             send_breakpoint_hit(result);
             // also send any breakpoint values
diff --git a/src/thread.cc b/src/thread.cc
index deb24b8..4c4389c 100644
--- a/src/thread.cc
+++ b/src/thread.cc
@@ -18,4 +18,9 @@ void RuntimeLock::ready() {
     }
 }
 
+void RuntimeLock::reset() {
+    std::unique_lock<std::mutex> lock_(m_);
+    ready_ = false;
+}
+
 }  // namespace hgdb
\ No newline at end of file
diff --git a/src/thread.hh b/src/thread.hh
index 0d4968c..d47ec4b 100644
--- a/src/thread.hh
+++ b/src/thread.hh
@@ -12,6 +12,8 @@ public:
     RuntimeLock() = default;
     void wait();
     void ready();
+    // forget about a previous ready that nobody has waited for
+    void reset();
 
 private:
     std::mutex m_;
-- 
2.43.0


From 2076517fc73847504bd5c4f904d230766673b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:19 +0000
Subject: [PATCH 034/104] fix: answer every request, also without symbol table

Requests that need a symbol table crashed the simulation before one was
loaded, errors lost the request's token or had no reason, and symbol
requests were not answered at all.
---
 src/debug.cc | 47 +++++++++++++++++++++++++++++++++--------------
 src/debug.hh |  2 +-
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 77971f9..44b8043 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -561,7 +561,7 @@ void Debugger::handle_connection(const ConnectionRequest &req, uint64_t conn_id)
 }
 
 void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id) {
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
 
     // depends on whether it is "add" or "remove"
     auto const &bp_info = req.breakpoint();
@@ -602,7 +602,7 @@ void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id)
 }
 
 void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t conn_id) {
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
     // depends on whether it is "add" or "remove"
     auto const &bp_info = req.breakpoint();
     if (req.bp_action() == BreakPointRequest::action::add) {
@@ -626,7 +626,7 @@ void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t con
 
 void Debugger::handle_bp_location(const BreakPointLocationRequest &req, uint64_t conn_id) {
     // if db is not connected correctly, abort
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
 
     auto const &filename = req.filename();
     auto const &line_num = req.line_num();
@@ -652,18 +652,22 @@ void Debugger::handle_bp_location(const BreakPointLocationRequest &req, uint64_t
 void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
     status_code status = status_code::success;
     std::string error;
+    // there is no scheduler without symbol table
+    auto set_evaluation_mode = [this](Scheduler::EvaluationMode mode) {
+        if (scheduler_) scheduler_->set_evaluation_mode(mode);
+    };
 
     switch (req.command_type()) {
         case CommandRequest::CommandType::continue_: {
             log_info("handle_command: continue_");
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::BreakPointOnly);
+            set_evaluation_mode(Scheduler::EvaluationMode::BreakPointOnly);
             lock_.ready();
             break;
         }
         case CommandRequest::CommandType::stop: {
             log_info("handle_command: stop");
-            scheduler_->clear();
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::None);
+            if (scheduler_) scheduler_->clear();
+            set_evaluation_mode(Scheduler::EvaluationMode::None);
             // we will unlock the lock during the stop step to ensure proper shutdown
             // of the runtime
             namespaces_.default_rtl()->finish_sim();
@@ -673,25 +677,26 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
         case CommandRequest::CommandType::step_over: {
             log_info("handle_command: step_over");
             // change the mode into step through
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::StepOver);
+            set_evaluation_mode(Scheduler::EvaluationMode::StepOver);
             lock_.ready();
             break;
         }
         case CommandRequest::CommandType::reverse_continue: {
             log_info("handle_command: reverse_continue");
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::ReverseBreakpointOnly);
+            set_evaluation_mode(Scheduler::EvaluationMode::ReverseBreakpointOnly);
             lock_.ready();
             break;
         }
         case CommandRequest::CommandType::step_back: {
             log_info("handle_command: step_back");
             // change the mode into step back
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::StepBack);
+            set_evaluation_mode(Scheduler::EvaluationMode::StepBack);
             lock_.ready();
             break;
         }
         case CommandRequest::CommandType::jump: {
             log_info(fmt::format("handle_command: jump ({0})", req.time()));
+            if (!check_send_db_error(req, conn_id)) return;
             auto res = namespaces_.default_rtl()->rewind(req.time(), scheduler_->clock_handles());
             if (!res) {
                 status = status_code::error;
@@ -715,6 +720,7 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
 void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t conn_id) {
     switch (req.command_type()) {
         case DebuggerInformationRequest::CommandType::breakpoints: {
+            if (!check_send_db_error(req, conn_id)) return;
             auto bps = scheduler_->get_current_breakpoints();
             std::vector<const DebugBreakPoint *> bps_;
             bps_.reserve(bps.size());
@@ -759,6 +765,7 @@ void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t
             return;
         }
         case DebuggerInformationRequest::CommandType::filename: {
+            if (!check_send_db_error(req, conn_id)) return;
             auto filenames = db_->get_filenames();
             auto resp = DebuggerInformationResponse(filenames);
             req.set_token(resp);
@@ -769,6 +776,7 @@ void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t
 }
 
 void Debugger::handle_path_mapping(const PathMappingRequest &req, uint64_t conn_id) {
+    if (!check_send_db_error(req, conn_id)) return;
     if (db_ && req.status() == status_code::success) [[likely]] {
         db_->set_src_mapping(req.path_mapping());
         auto resp = GenericResponse(status_code::success, req);
@@ -831,6 +839,7 @@ DebuggerNamespace *get_namespace(std::optional<uint32_t> instance_id,
 
 // NOLINTNEXTLINE
 void Debugger::handle_evaluation(const EvaluationRequest &req, uint64_t conn_id) {
+    if (!check_send_db_error(req, conn_id)) return;
     std::string error_reason = req.error_reason();
 
     if (db_ && req.status() == status_code::success) [[likely]] {
@@ -903,11 +912,16 @@ void Debugger::handle_option_change(const OptionChangeRequest &req, uint64_t con
 }
 
 void Debugger::handle_monitor(const MonitorRequest &req, uint64_t conn_id) {
+    if (!check_send_db_error(req, conn_id)) return;
     if (req.status() == status_code::success) {
         // depends on whether it is an add or remove action
         auto *ns = get_namespace(req.instance_id(), req.breakpoint_id(), req.namespace_id(),
                                  namespaces_, db_.get());
 
+        if (!ns) {
+            send_error(req, "Unable to determine design namespace", conn_id);
+            return;
+        }
         auto &monitor = *ns->monitor;
         if (req.action_type() == MonitorRequest::ActionType::add) {
             std::optional<std::string> full_name =
@@ -944,6 +958,7 @@ void Debugger::handle_monitor(const MonitorRequest &req, uint64_t conn_id) {
 }
 
 void Debugger::handle_set_value(const SetValueRequest &req, uint64_t conn_id) {  // NOLINT
+    if (!check_send_db_error(req, conn_id)) return;
     log_info(fmt::format("handle set value {0} = {1}", req.var_name(), req.value()));
 
     if (req.status() == status_code::success) {
@@ -975,7 +990,7 @@ void Debugger::handle_set_value(const SetValueRequest &req, uint64_t conn_id) {
             send_message(resp.str(log_enabled_), conn_id);
             return;
         } else {
-            send_error(req, req.error_reason(), conn_id);
+            send_error(req, "Unable to set the value of " + req.var_name(), conn_id);
             return;
         }
 
@@ -984,14 +999,18 @@ void Debugger::handle_set_value(const SetValueRequest &req, uint64_t conn_id) {
     }
 }
 
-void Debugger::handle_error(const ErrorRequest &req, uint64_t) {}
+void Debugger::handle_error(const ErrorRequest &req, uint64_t conn_id) {
+    send_error(req, "Invalid request", conn_id);
+}
 
-void Debugger::handle_symbol(const SymbolRequest &, uint64_t) {
+void Debugger::handle_symbol(const SymbolRequest &req, uint64_t conn_id) {
     // we don't deal with symbol stuff in the debugger
+    send_error(req, "Symbol requests are not served by the debugger", conn_id);
 }
 
 // NOLINTNEXTLINE
 void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t conn_id) {
+    if (!check_send_db_error(req, conn_id)) return;
     auto *ns = get_namespace(std::nullopt, req.breakpoint_id(), req.namespace_id(), namespaces_,
                              db_.get());
     if (!ns) {
@@ -1213,10 +1232,10 @@ void Debugger::set_vendor_initial_options() {
     }
 }
 
-bool Debugger::check_send_db_error(RequestType type, uint64_t conn_id) {
+bool Debugger::check_send_db_error(const Request &req, uint64_t conn_id) {
     if (!db_) {
         // need to send error response
-        auto resp = GenericResponse(status_code::error, type,
+        auto resp = GenericResponse(status_code::error, req,
                                     "Database is not initialized or is initialized incorrectly");
         send_message(resp.str(log_enabled_), conn_id);
         return false;
diff --git a/src/debug.hh b/src/debug.hh
index c87594f..5cd5b23 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -155,7 +155,7 @@ private:
     void set_vendor_initial_options();
 
     // common checker
-    bool check_send_db_error(RequestType type, uint64_t conn_id);
+    bool check_send_db_error(const Request &req, uint64_t conn_id);
 
     // scheduler
     bool should_trigger(DebugBreakPoint *bp);
-- 
2.43.0


From 037dbe4b3f393d0d95857b13507aa5407ede0ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:50 +0000
Subject: [PATCH 035/104] fix: neither skip nor repeat breakpoints when the
 evaluation mode changes

The position is kept when switching between continuing, stepping and
reversing. Breakpoints are evaluated together only if there is nothing to
evaluate in between, and those of unmapped instances do not end the clock
edge. Going back from an arbitrary position, or without any breakpoint
that holds, neither loops forever nor reads past the list.
---
 src/debug.cc     |   2 +
 src/scheduler.cc | 217 +++++++++++++++++++++++------------------------
 src/scheduler.hh |   7 ++
 3 files changed, 113 insertions(+), 113 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 44b8043..a6932c8 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -151,6 +151,7 @@ void Debugger::eval() {
         }
 
         if (!result.empty()) {
+            scheduler_->set_current_breakpoints(result);
             // only commands sent from now on resume the simulation
             lock_.reset();
             // send the breakpoint hit information
@@ -616,6 +617,7 @@ void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t con
             return;
         }
         add_breakpoint(bp_info, *bp);
+        scheduler_->reorder_breakpoints();
     } else {
         scheduler_->remove_breakpoint(bp_info, DebugBreakPoint::Type::normal);
     }
diff --git a/src/scheduler.cc b/src/scheduler.cc
index 3ddbc68..ed3dbb9 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -30,6 +30,12 @@ Scheduler::Scheduler(DebuggerNamespaceManager &namespaces, SymbolTableProvider *
     }
 }
 
+void clear_breakpoints(std::vector<std::unique_ptr<DebugBreakPoint>> &breakpoints) {
+    for (auto &bp : breakpoints) {
+        bp->evaluated = false;
+    }
+}
+
 std::vector<DebugBreakPoint *> Scheduler::next_breakpoints() {
     switch (evaluation_mode_) {
         case EvaluationMode::BreakPointOnly: {
@@ -53,25 +59,20 @@ std::vector<DebugBreakPoint *> Scheduler::next_breakpoints() {
 
 std::vector<DebugBreakPoint *> Scheduler::next_step_over_breakpoints() {
     // need to get the actual ordering table
-    std::optional<uint32_t> next_breakpoint_id;
-    if (!current_breakpoint_id_) [[unlikely]] {
-        // need to grab the first one, doesn't matter which one
-        if (!bp_ordering_.empty()) next_breakpoint_id = bp_ordering_[0];
-    } else {
-        auto current_id = *current_breakpoint_id_;
-        auto pos = std::find(bp_ordering_.begin(), bp_ordering_.end(), current_id);
-        if (pos != bp_ordering_.end()) {
-            auto index = static_cast<uint64_t>(std::distance(bp_ordering_.begin(), pos));
-            if (index != (bp_ordering_.size() - 1)) {
-                next_breakpoint_id = bp_ordering_[index + 1];
-            }
-        }
+    uint64_t index = 0;
+    if (current_breakpoint_id_) [[likely]] {
+        index = get_order(*current_breakpoint_id_) + 1;
     }
-    if (!next_breakpoint_id) return {};
-    current_breakpoint_id_ = next_breakpoint_id;
-    // need to get a new breakpoint
-    auto bp_info = db_->get_breakpoint(*current_breakpoint_id_);
-    return create_next_breakpoints(bp_info);
+    // breakpoints whose instance is not part of the design are skipped
+    for (; index < bp_ordering_.size(); index++) {
+        current_breakpoint_id_ = bp_ordering_[index];
+        mark_evaluated(true);
+        // need to get a new breakpoint
+        auto bp_info = db_->get_breakpoint(*current_breakpoint_id_);
+        auto result = create_next_breakpoints(bp_info);
+        if (!result.empty()) return result;
+    }
+    return {};
 }
 
 std::vector<DebugBreakPoint *> Scheduler::next_normal_breakpoints() {
@@ -87,7 +88,9 @@ std::vector<DebugBreakPoint *> Scheduler::next_normal_breakpoints() {
     // find index
     std::optional<uint64_t> pos;
     for (uint64_t i = 0; i < breakpoints_.size(); i++) {
-        if (breakpoints_[i]->evaluated) {
+        if (breakpoints_[i]->evaluated ||
+            (current_breakpoint_id_ &&
+             get_order(breakpoints_[i]->id) < get_order(*current_breakpoint_id_))) {
             pos = i;
         }
     }
@@ -122,102 +125,101 @@ std::vector<DebugBreakPoint *> Scheduler::next_normal_breakpoints() {
 }
 
 std::vector<DebugBreakPoint *> Scheduler::next_step_back_breakpoints() {
-    std::optional<uint32_t> next_breakpoint_id;
-    if (!current_breakpoint_id_) [[unlikely]] {
-        // can't roll back if the current breakpoint id is not set
+    // can't roll back if the current breakpoint id is not set
+    if (!current_breakpoint_id_ || bp_ordering_.empty()) [[unlikely]]
         return {};
-    } else {
-        auto current_id = *current_breakpoint_id_;
-        auto pos = std::find(bp_ordering_.begin(), bp_ordering_.end(), current_id);
-        auto index = static_cast<uint64_t>(std::distance(bp_ordering_.begin(), pos));
-        if (index != 0) {
-            next_breakpoint_id = bp_ordering_[index - 1];
-        } else {
-            // you get stuck at this breakpoint since we can't technically go back any
-            // more
-            // unless the simulator supported
-            // need to extend RTL client capability to actually reverse timestamp
-            // in the future.
-            auto const &handles = clock_handles_;
-            if (namespaces_.default_rtl()->reverse_last_posedge(handles)) {
-                // we successfully reverse the time
-                next_breakpoint_id = bp_ordering_.back();
-            } else {
-                // fail to reverse time, use the first one
-                next_breakpoint_id = bp_ordering_[0];
+    auto index = std::min<uint64_t>(get_order(*current_breakpoint_id_), bp_ordering_.size());
+    bool reversed = false;
+    while (true) {
+        if (index == 0) {
+            // you get stuck at the first breakpoint since we can't technically go back any
+            // more, unless the simulator supports it
+            // no need to look at another clock edge if the design has none of the breakpoints
+            if (reversed || !namespaces_.default_rtl()->reverse_last_posedge(clock_handles_)) {
+                // fail to reverse time, stop at the first one that can be hit
+                evaluation_mode_ = EvaluationMode::StepOver;
+                current_breakpoint_id_ = std::nullopt;
+                clear_breakpoints(breakpoints_);
+                return next_step_over_breakpoints();
             }
-        }
+            // we successfully reverse the time
+            reversed = true;
+            index = bp_ordering_.size();
+        }
+        current_breakpoint_id_ = bp_ordering_[--index];
+        mark_evaluated(false);
+        // need to get a new breakpoint
+        auto bp_info = db_->get_breakpoint(*current_breakpoint_id_);
+        auto result = create_next_breakpoints(bp_info);
+        if (!result.empty()) return result;
     }
-    if (!next_breakpoint_id) return {};
-
-    current_breakpoint_id_ = next_breakpoint_id;
-    // need to get a new breakpoint
-    auto bp_info = db_->get_breakpoint(*current_breakpoint_id_);
-    return create_next_breakpoints(bp_info);
 }
 
 std::vector<DebugBreakPoint *> Scheduler::next_reverse_breakpoints() {
+    std::unique_lock guard(breakpoint_lock_);
     // if no breakpoint inserted. return early
-    std::lock_guard guard(breakpoint_lock_);
     if (breakpoints_.empty()) return {};
     // we basically reverse the search of the normal breakpoint
-
-    std::vector<DebugBreakPoint *> result;
-
-    // if the current breakpoint is the first one already, we need to reverse the time to previous
+    // if there is no breakpoint before the current one, we need to reverse the time to previous
     // cycle
-    std::optional<uint64_t> target_index;
+    auto index = static_cast<int64_t>(breakpoints_.size()) - 1;
     if (current_breakpoint_id_) {
-        if (breakpoints_.front()->id == *current_breakpoint_id_) {
-            // we have reached the first one of the current
-            // call reverse
-            auto handles = clock_handles_;
-            auto res = namespaces_.default_rtl()->reverse_last_posedge(handles);
-            if (!res) {
-                // can't revert the time. use the current timestamp
-                // just return the first one
-                target_index = 0;
-            } else {
+        // notice that breakpoints are already ordered
+        auto order = get_order(*current_breakpoint_id_);
+        while (index >= 0 && get_order(breakpoints_[index]->id) >= order) index--;
+        if (index < 0) {
+            if (namespaces_.default_rtl()->reverse_last_posedge(clock_handles_)) {
                 // time reversed
+                index = static_cast<int64_t>(breakpoints_.size()) - 1;
+            } else {
+                // can't revert the time. stop at the first one that holds
+                evaluation_mode_ = EvaluationMode::BreakPointOnly;
                 current_breakpoint_id_ = std::nullopt;
-                target_index = breakpoints_.size() - 1;
-            }
-        } else {
-            // find the next inserted breakpoint
-            // notice that breakpoints are already ordered,
-            // so we search from the beginning
-            for (auto i = breakpoints_.size() - 1; i >= 1; i--) {
-                auto id = breakpoints_[i]->id;
-                if (id == *current_breakpoint_id_) {
-                    // find it
-                    target_index = i - 1;
-                    break;
-                }
+                clear_breakpoints(breakpoints_);
+                guard.unlock();
+                return next_normal_breakpoints();
             }
         }
-    } else {
-        // just return the last one
-        target_index = breakpoints_.size() - 1;
     }
 
-    if (!target_index && target_index >= breakpoints_.size()) {
-        current_breakpoint_id_ = std::nullopt;
-        return {};
-    }
-    result.emplace_back(breakpoints_[*target_index].get());
+    std::vector<DebugBreakPoint *> result{breakpoints_[index].get()};
     // if it's not single thread mode
     if (!single_thread_mode_) {
-        scan_breakpoints(*target_index, false, result);
+        scan_breakpoints(index, false, result);
     }
     // use the last one as the breakpoint id
     current_breakpoint_id_ = result.back()->id;
-
+    mark_evaluated(false);
     for (auto *bp : result) {
         bp->evaluated = true;
     }
     return result;
 }
 
+uint64_t Scheduler::get_order(uint32_t bp_id) const {
+    auto pos = bp_ordering_table_.find(bp_id);
+    return pos == bp_ordering_table_.end() ? bp_ordering_.size() : pos->second;
+}
+
+void Scheduler::mark_evaluated(bool forward) {
+    auto order = get_order(*current_breakpoint_id_);
+    for (auto &bp : breakpoints_) {
+        if (get_order(bp->id) <= order) {
+            bp->evaluated = true;
+        } else if (!forward) {
+            bp->evaluated = false;
+        }
+    }
+}
+
+void Scheduler::set_current_breakpoints(const std::vector<const DebugBreakPoint *> &hits) {
+    // breakpoints may be evaluated together. use the first one in the execution order
+    auto first = std::min_element(
+        hits.begin(), hits.end(),
+        [this](auto const *a, auto const *b) { return get_order(a->id) < get_order(b->id); });
+    if (first != hits.end()) current_breakpoint_id_ = (*first)->id;
+}
+
 DebugBreakPoint *Scheduler::get_breakpoint(uint32_t id) const {
     auto pos = std::find_if(breakpoints_.begin(), breakpoints_.end(),
                             [id](auto const &b) { return b->id == id; });
@@ -291,12 +293,6 @@ void Scheduler::remove_assert_breakpoints() {
     }
 }
 
-void clear_breakpoints(std::vector<std::unique_ptr<DebugBreakPoint>> &breakpoints) {
-    for (auto &bp : breakpoints) {
-        bp->evaluated = false;
-    }
-}
-
 void Scheduler::start_breakpoint_evaluation() {
     // remove assertions first
     remove_assert_breakpoints();
@@ -305,12 +301,7 @@ void Scheduler::start_breakpoint_evaluation() {
     current_breakpoint_id_ = std::nullopt;
 }
 
-void Scheduler::set_evaluation_mode(EvaluationMode mode) {
-    if (evaluation_mode_ != mode) {
-        clear_breakpoints(breakpoints_);
-        evaluation_mode_ = mode;
-    }
-}
+void Scheduler::set_evaluation_mode(EvaluationMode mode) { evaluation_mode_ = mode; }
 
 void Scheduler::clear() {
     inserted_breakpoints_.clear();
@@ -506,10 +497,11 @@ void Scheduler::reorder_breakpoints() {
     // the easiest way is to sort them by their lookup table. assuming the number of
     // breakpoints is relatively small, i.e. < 100, sorting can be efficient and less
     // bug-prone
-    std::sort(breakpoints_.begin(), breakpoints_.end(),
-              [this](const auto &left, const auto &right) -> bool {
-                  return bp_ordering_table_.at(left->id) < bp_ordering_table_.at(right->id);
-              });
+    // keep the order of the ones with the same id, some of which may be evaluated already
+    std::stable_sort(breakpoints_.begin(), breakpoints_.end(),
+                     [this](const auto &left, const auto &right) -> bool {
+                         return get_order(left->id) < get_order(right->id);
+                     });
 }
 
 void Scheduler::remove_breakpoint(const BreakPoint &bp, DebugBreakPoint::Type type) {
@@ -563,7 +555,8 @@ void Scheduler::scan_breakpoints(uint64_t ref_index, bool forward,
     // hits if it shares the same fn/ln/cn tuple
     // matching criteria:
     // - same enable condition
-    // - different instance id
+    // - different instance id, or the same one in another namespace
+    // stop at the first one that doesn't match, since nothing in between can be left out
 
     auto match = [&](uint64_t i) -> bool {
         auto const &next_bp = breakpoints_[i];
@@ -573,20 +566,18 @@ void Scheduler::scan_breakpoints(uint64_t ref_index, bool forward,
             next_bp->column_num != ref_bp->column_num) {
             return false;
         }
-        // if we see a data breakpoint, don't stop, just skip it
-        if (next_bp->type == DebugBreakPoint::Type::data) {
-            return true;
-        }
-        // same enable expression but different instance id
-        if (next_bp->instance_id != ref_bp->instance_id &&
-            next_bp->enable_expr->expression() == target_expr) {
-            result.emplace_back(next_bp.get());
+        if (next_bp->type != ref_bp->type) return false;
+        // same enable expression but different instance
+        if ((next_bp->instance_id == ref_bp->instance_id && next_bp->ns_id == ref_bp->ns_id) ||
+            next_bp->enable_expr->expression() != target_expr) {
+            return false;
         }
+        result.emplace_back(next_bp.get());
         return true;
     };
 
     if (forward) {
-        for (auto i = ref_index; i < static_cast<uint64_t>(breakpoints_.size()); i++) {
+        for (auto i = ref_index + 1; i < static_cast<uint64_t>(breakpoints_.size()); i++) {
             if (!match(i)) break;
         }
     } else {
diff --git a/src/scheduler.hh b/src/scheduler.hh
index eee36d3..8b37b8d 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -57,6 +57,8 @@ public:
     std::vector<DebugBreakPoint *> next_reverse_breakpoints();
     DebugBreakPoint *get_breakpoint(uint32_t id) const;
     void start_breakpoint_evaluation();
+    // tell the scheduler what has been reported, i.e. where the execution stops now
+    void set_current_breakpoints(const std::vector<const DebugBreakPoint *> &hits);
 
     // change scheduling semantics
     void set_evaluation_mode(EvaluationMode mode);
@@ -113,6 +115,11 @@ private:
         const std::optional<BreakPoint> &bp_info);
     std::unique_ptr<DebugBreakPoint> remove_breakpoint(uint64_t bp_id, DebugBreakPoint::Type type);
     void remove_assert_breakpoints();
+    // position in the execution order
+    [[nodiscard]] uint64_t get_order(uint32_t bp_id) const;
+    // mark the inserted breakpoints the execution has gone past. when going backward, the ones that
+    // lie ahead again have to be evaluated again
+    void mark_evaluated(bool forward);
 
     // log
     static void log_error(const std::string &msg);
-- 
2.43.0


From 76e76998e6db5d49927b24be882987bb088d9787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:37 +0000
Subject: [PATCH 036/104] fix: keep normal and data breakpoints of the same
 statement apart

Adding, updating, removing and clearing concern all namespaces and only
the kind of breakpoint asked for. Invalid conditions are reported and
change nothing, and data breakpoints always have their own watch.
---
 src/debug.cc     |  59 ++++++++++-------
 src/debug.hh     |   2 +-
 src/monitor.cc   |   6 ++
 src/monitor.hh   |   1 +
 src/scheduler.cc | 165 +++++++++++++++++++----------------------------
 src/scheduler.hh |  10 +--
 6 files changed, 117 insertions(+), 126 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index a6932c8..8bbbd59 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -583,8 +583,14 @@ void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id)
             return;
         }
 
+        bool added = false;
         for (auto const &bp : bps) {
-            add_breakpoint(bp_info, bp);
+            added |= add_breakpoint(bp_info, bp);
+        }
+        // the condition may not be valid for some of them
+        if (!added) {
+            send_error(req, "Unable to insert breakpoint", conn_id);
+            return;
         }
 
         scheduler_->reorder_breakpoints();
@@ -616,7 +622,10 @@ void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t con
             send_message(error_response.str(log_enabled_), conn_id);
             return;
         }
-        add_breakpoint(bp_info, *bp);
+        if (!add_breakpoint(bp_info, *bp)) {
+            send_error(req, "Unable to insert breakpoint", conn_id);
+            return;
+        }
         scheduler_->reorder_breakpoints();
     } else {
         scheduler_->remove_breakpoint(bp_info, DebugBreakPoint::Type::normal);
@@ -1023,6 +1032,9 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
     switch (req.action()) {
         case DataBreakpointRequest::Action::clear: {
             scheduler_->clear_data_breakpoints();
+            for (auto const &n : namespaces_) {
+                n->monitor->remove_monitor_variables(MonitorRequest::MonitorType::data);
+            }
             auto resp = GenericResponse(status_code::success, req);
             send_message(resp.str(log_enabled_), conn_id);
             log_info("data breakpoint cleared");
@@ -1050,20 +1062,27 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                 var_names.emplace(ns->rtl->get_full_name(full_name));
             }
 
+            // make sure all of them are valid before inserting any
             for (auto const &[id, var_name, data_condition] : bp_ids) {
                 auto bp_opt = db_->get_breakpoint(id);
                 if (!bp_opt) {
                     send_error(req, "Invalid breakpoint id", conn_id);
                     return;
                 }
-                // merge data_condition
                 auto bp_condition = util::and_conditions(req.condition(), data_condition);
-                auto *bp =
-                    scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, dry_run);
-                if (!bp) {
+                if (!scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, true, ns)) {
                     send_error(req, "Invalid data breakpoint expression/data_condition", conn_id);
                     return;
                 }
+            }
+
+            for (auto const &[id, var_name, data_condition] : bp_ids) {
+                if (dry_run) break;
+                auto bp_opt = db_->get_breakpoint(id);
+                // merge data_condition
+                auto bp_condition = util::and_conditions(req.condition(), data_condition);
+                auto *bp =
+                    scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, false, ns);
 
                 // they share the same variable
                 // notice that in case some breakpoints got deleted, we need to get it from the
@@ -1075,16 +1094,10 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                     value_ptr = std::make_shared<std::optional<int64_t>>();
                 }
 
-                // add it to the monitor
-                if (!dry_run) {
-                    auto watched = monitor->is_monitored(bp->full_rtl_handle,
-                                                         MonitorRequest::MonitorType::data);
-                    if (!watched) {
-                        bp->watch_id = monitor->add_monitor_variable(
-                            bp->full_rtl_name, MonitorRequest::MonitorType::data, value_ptr);
-                        log_info(fmt::format("Added watch variable with ID {0}", bp->watch_id));
-                    }
-                }
+                // add it to the monitor, which reuses the watch if there is one already
+                bp->watch_id = monitor->add_monitor_variable(
+                    bp->full_rtl_name, MonitorRequest::MonitorType::data, value_ptr);
+                log_info(fmt::format("Added watch variable with ID {0}", bp->watch_id));
             }
 
             // sort the breakpoints
@@ -1096,12 +1109,12 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
             break;
         }
         case DataBreakpointRequest::Action::remove: {
-            auto watch_id = scheduler_->remove_data_breakpoint(req.breakpoint_id());
+            auto watch_ids = scheduler_->remove_data_breakpoint(req.breakpoint_id(), ns->id);
             // remove from monitor as well
-            if (watch_id) {
+            for (auto const watch_id : watch_ids) {
                 auto &monitor = ns->monitor;
-                monitor->remove_monitor_variable(*watch_id);
-                log_info(fmt::format("Remove watch variable with ID {0}", *watch_id));
+                monitor->remove_monitor_variable(watch_id);
+                log_info(fmt::format("Remove watch variable with ID {0}", watch_id));
             }
             // tell client we're good
             auto success_resp = GenericResponse(status_code::success, req);
@@ -1400,9 +1413,11 @@ void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::v
     }
 }
 
-void Debugger::add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp) {
-    scheduler_->add_breakpoint(bp_info, db_bp);
+bool Debugger::add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp) {
+    auto *bp = scheduler_->add_breakpoint(bp_info, db_bp);
+    if (!bp) return false;
     process_delayed_breakpoint(db_bp.id);
+    return true;
 }
 
 void Debugger::start_breakpoint_evaluation() {
diff --git a/src/debug.hh b/src/debug.hh
index 5cd5b23..b331fc3 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -163,7 +163,7 @@ private:
     void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<bool> &result,
                          uint64_t start, uint64_t end);
     std::vector<bool> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
-    void add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
+    bool add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
     void start_breakpoint_evaluation();
 
     // cached wrapper
diff --git a/src/monitor.cc b/src/monitor.cc
index 3a188a7..17febb5 100644
--- a/src/monitor.cc
+++ b/src/monitor.cc
@@ -47,6 +47,12 @@ void Monitor::remove_monitor_variable(uint64_t watch_id) {
     }
 }
 
+void Monitor::remove_monitor_variables(WatchType watch_type) {
+    for (auto pos = watched_variables_.begin(); pos != watched_variables_.end();) {
+        pos = pos->second->type == watch_type ? watched_variables_.erase(pos) : std::next(pos);
+    }
+}
+
 void Monitor::set_monitor_variable_condition(uint64_t id, std::function<bool()> cond) {
     if (watched_variables_.find(id) != watched_variables_.end()) [[likely]] {
         watched_variables_.at(id)->enable_cond = std::move(cond);
diff --git a/src/monitor.hh b/src/monitor.hh
index a6365f3..393af3b 100644
--- a/src/monitor.hh
+++ b/src/monitor.hh
@@ -24,6 +24,7 @@ public:
     uint64_t add_monitor_variable(const std::string& full_name, uint32_t depth,
                                   std::optional<int64_t> v);
     void remove_monitor_variable(uint64_t watch_id);
+    void remove_monitor_variables(WatchType watch_type);
     [[nodiscard]] std::optional<uint64_t> is_monitored(vpiHandle handle,
                                                        WatchType watch_type) const;
     void set_monitor_variable_condition(uint64_t id, std::function<bool()> cond);
diff --git a/src/scheduler.cc b/src/scheduler.cc
index ed3dbb9..2bd6f70 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -258,39 +258,26 @@ std::vector<DebugBreakPoint *> Scheduler::create_next_breakpoints(
     return res;
 }
 
-std::unique_ptr<DebugBreakPoint> Scheduler::remove_breakpoint(uint64_t bp_id,
-                                                              DebugBreakPoint::Type type) {
+std::vector<std::unique_ptr<DebugBreakPoint>> Scheduler::remove_breakpoints(
+    const std::function<bool(const DebugBreakPoint &)> &pred) {
     // notice that removal doesn't need reordering
-    for (auto pos = breakpoints_.begin(); pos != breakpoints_.end(); pos++) {
-        if ((*pos)->id == bp_id) {
-            // erase the type first. if the remaining type is 0, then we completely erase the
-            // breakpoint
-            auto t = static_cast<uint32_t>((*pos)->type);
-            t &= ~(static_cast<uint32_t>(type));
-            if (t == 0) {
-                // remove it before after transfer the ownership
-                std::unique_ptr<DebugBreakPoint> res = std::move(*pos);
-                breakpoints_.erase(pos);
-                inserted_breakpoints_.erase(bp_id);
-                return res;
-            } else {
-                (*pos)->type = static_cast<DebugBreakPoint::Type>(t);
-            }
-            break;
+    std::vector<std::unique_ptr<DebugBreakPoint>> result;
+    for (auto pos = breakpoints_.begin(); pos != breakpoints_.end();) {
+        if (pred(**pos)) {
+            // remove it before after transfer the ownership
+            result.emplace_back(std::move(*pos));
+            pos = breakpoints_.erase(pos);
+        } else {
+            pos++;
         }
     }
-    return nullptr;
+    return result;
 }
 
 void Scheduler::remove_assert_breakpoints() {
-    auto ids =
-        std::unordered_set<uint32_t>(inserted_breakpoints_.begin(), inserted_breakpoints_.end());
-    for (auto bp_id : ids) {
-        auto *bp = get_breakpoint(bp_id);
-        if (bp && bp->has_type_flag(DebugBreakPoint::Type::assert) && bp->evaluated) {
-            remove_breakpoint(bp_id, DebugBreakPoint::Type::assert);
-        }
-    }
+    remove_breakpoints([](auto const &bp) {
+        return bp.has_type_flag(DebugBreakPoint::Type::assert) && bp.evaluated;
+    });
 }
 
 void Scheduler::start_breakpoint_evaluation() {
@@ -304,7 +291,6 @@ void Scheduler::start_breakpoint_evaluation() {
 void Scheduler::set_evaluation_mode(EvaluationMode mode) { evaluation_mode_ = mode; }
 
 void Scheduler::clear() {
-    inserted_breakpoints_.clear();
     breakpoints_.clear();
 }
 
@@ -373,7 +359,6 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
             return holder.get();
         } else {
             auto &ptr = breakpoints_.emplace_back(std::move(bp));
-            inserted_breakpoints_.emplace(db_bp.id);
             log_info(
                 fmt::format("Breakpoint inserted into {0}:{1}", db_bp.filename, db_bp.line_num));
             return ptr.get();
@@ -386,37 +371,33 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
 
     switch (bp_type) {
         case DebugBreakPoint::Type::normal: {
-            if (inserted_breakpoints_.find(db_bp.id) == inserted_breakpoints_.end()) {
-                DebugBreakPoint *p = nullptr;
-                for (auto *ns : namespaces) {
-                    p = insert_bp(ns);
-                }
-                // Only need to return one
-                return p;
-            } else {
-                // update breakpoint entry
-                for (auto &b : breakpoints_) {
-                    if (db_bp.id == b->id) {
-                        b->expr = std::make_unique<DebugExpression>(cond);
-                        auto *ns = namespaces_[b->ns_id];
-                        auto *rtl = ns->rtl.get();
-                        util::validate_expr(rtl, db_, b->expr.get(), db_bp.id, *db_bp.instance_id);
-                        if (!b->expr->correct()) [[unlikely]] {
-                            log_error("Unable to validate breakpoint expression: " + cond);
-                        }
-                        // need to update the bp type flag
-                        b->type = static_cast<DebugBreakPoint::Type>(static_cast<int>(b->type) |
-                                                                     static_cast<int>(bp_type));
-                        return b.get();
-                    }
+            // update breakpoint entries, if any
+            DebugBreakPoint *p = nullptr;
+            for (auto &b : breakpoints_) {
+                if (db_bp.id != b->id || b->type != bp_type) continue;
+                auto expr = std::make_unique<DebugExpression>(cond);
+                auto *rtl = namespaces_[b->ns_id]->rtl.get();
+                util::validate_expr(rtl, db_, expr.get(), db_bp.id, *db_bp.instance_id);
+                if (!expr->correct()) [[unlikely]] {
+                    log_error("Unable to validate breakpoint expression: " + cond);
+                    return nullptr;
                 }
-                return nullptr;
+                b->expr = std::move(expr);
+                p = b.get();
+            }
+            if (p) return p;
+            for (auto *ns : namespaces) {
+                if (auto *bp = insert_bp(ns)) p = bp;
             }
+            // Only need to return one
+            return p;
         }
         case DebugBreakPoint::Type::data: {
+            if (!target_ns) return nullptr;
             // we skip insertion if everything matches
             for (auto const &b : breakpoints_) {
-                if (b->id == db_bp.id && b->has_type_flag(DebugBreakPoint::Type::data)) {
+                if (b->id == db_bp.id && b->ns_id == target_ns->id &&
+                    b->has_type_flag(DebugBreakPoint::Type::data)) {
                     // check if it's data breakpoint as well
                     if (b->target_rtl_var_name == target_var && b->expr->expression() == cond) {
                         // no need to insert
@@ -424,21 +405,19 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
                     }
                 }
             }
-            DebugBreakPoint *data_bp = nullptr;
-            for (auto *ns : namespaces) {
-                data_bp = insert_bp(ns);
-                auto *rtl = ns->rtl.get();
-                auto expr = DebugExpression(target_var);
-                util::validate_expr(rtl, db_, &expr, db_bp.id, *db_bp.instance_id);
-                auto const &handles = expr.get_resolved_symbol_handles();
-                if (!expr.correct() || handles.size() != 1) {
-                    log_error("Unable to validate variable in data breakpoint: " + target_var);
-                    return nullptr;
-                }
-                data_bp->full_rtl_handle = handles.begin()->second;
-                data_bp->full_rtl_name = rtl->get_full_name(data_bp->full_rtl_handle);
-                data_bp->target_rtl_var_name = target_var;
+            auto *rtl = target_ns->rtl.get();
+            auto expr = DebugExpression(target_var);
+            util::validate_expr(rtl, db_, &expr, db_bp.id, *db_bp.instance_id);
+            auto const &handles = expr.get_resolved_symbol_handles();
+            if (!expr.correct() || handles.size() != 1) {
+                log_error("Unable to validate variable in data breakpoint: " + target_var);
+                return nullptr;
             }
+            auto *data_bp = insert_bp(target_ns);
+            if (!data_bp) return nullptr;
+            data_bp->full_rtl_handle = handles.begin()->second;
+            data_bp->full_rtl_name = rtl->get_full_name(data_bp->full_rtl_handle);
+            data_bp->target_rtl_var_name = target_var;
             return data_bp;
         }
         case DebugBreakPoint::Type::assert: {
@@ -452,12 +431,13 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
 
 DebugBreakPoint *Scheduler::add_data_breakpoint(const std::string &full_name,
                                                 const std::string &expression,
-                                                const BreakPoint &db_bp, bool dry_run) {
+                                                const BreakPoint &db_bp, bool dry_run,
+                                                DebuggerNamespace *ns) {
     // we use the same add breakpoint function with different flags on
     BreakPoint bp;
     bp.condition = expression;
     // we allow duplicated breakpoints to be inserted here
-    auto *data_bp = add_breakpoint(bp, db_bp, DebugBreakPoint::Type::data, full_name, dry_run);
+    auto *data_bp = add_breakpoint(bp, db_bp, DebugBreakPoint::Type::data, full_name, dry_run, ns);
     return data_bp;
 }
 
@@ -468,27 +448,8 @@ DebugBreakPoint *Scheduler::add_assert_breakpoint(hgdb::DebuggerNamespace *ns,
 
 void Scheduler::clear_data_breakpoints() {
     std::lock_guard guard(breakpoint_lock_);
-    // if it has both data breakpoints and normal breakpoints, clear the flag
-    // else remove this breakpoint
-    std::unordered_set<uint32_t> bps;
-    for (auto &bp : breakpoints_) {
-        if (bp->has_type_flag(DebugBreakPoint::Type::data)) {
-            if (bp->has_type_flag(DebugBreakPoint::Type::normal)) {
-                bp->type = DebugBreakPoint::Type::normal;
-            } else {
-                // remove this breakpoint
-                bps.emplace(bp->id);
-            }
-        }
-    }
-    for (auto id : bps) {
-        auto pos = std::find_if(breakpoints_.begin(), breakpoints_.end(),
-                                [id](auto const &bp) { return bp->id == id; });
-        if (pos != breakpoints_.end()) {
-            breakpoints_.erase(pos);
-            inserted_breakpoints_.erase(id);
-        }
-    }
+    remove_breakpoints(
+        [](auto const &bp) { return bp.has_type_flag(DebugBreakPoint::Type::data); });
 }
 
 void Scheduler::reorder_breakpoints() {
@@ -506,17 +467,25 @@ void Scheduler::reorder_breakpoints() {
 
 void Scheduler::remove_breakpoint(const BreakPoint &bp, DebugBreakPoint::Type type) {
     std::lock_guard guard(breakpoint_lock_);
-    remove_breakpoint(bp.id, type);
+    remove_breakpoints([&bp, type](auto const &b) { return b.id == bp.id && b.type == type; });
 }
 
-std::optional<uint64_t> Scheduler::remove_data_breakpoint(uint64_t bp_id) {
+std::vector<uint64_t> Scheduler::remove_data_breakpoint(uint64_t bp_id, uint32_t ns_id) {
     std::lock_guard guard(breakpoint_lock_);
-    auto ptr = remove_breakpoint(bp_id, DebugBreakPoint::Type::data);
-    if (ptr) {
-        return ptr->watch_id;
-    } else {
-        return std::nullopt;
+    auto bps = remove_breakpoints([bp_id, ns_id](auto const &b) {
+        return b.id == bp_id && b.ns_id == ns_id && b.type == DebugBreakPoint::Type::data;
+    });
+    std::vector<uint64_t> result;
+    for (auto const &bp : bps) {
+        // other data breakpoints may need the same watch
+        if (std::none_of(breakpoints_.begin(), breakpoints_.end(), [&bp](auto const &b) {
+                return b->type == DebugBreakPoint::Type::data && b->ns_id == bp->ns_id &&
+                       b->watch_id == bp->watch_id;
+            })) {
+            result.emplace_back(bp->watch_id);
+        }
     }
+    return result;
 }
 
 std::vector<const DebugBreakPoint *> Scheduler::get_current_breakpoints() {
diff --git a/src/scheduler.hh b/src/scheduler.hh
index 8b37b8d..957b521 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -74,11 +74,11 @@ public:
     std::vector<const DebugBreakPoint *> get_current_breakpoints();
     DebugBreakPoint *add_data_breakpoint(const std::string &full_name,
                                          const std::string &expression, const BreakPoint &db_bp,
-                                         bool dry_run);
+                                         bool dry_run, DebuggerNamespace *ns);
     DebugBreakPoint *add_assert_breakpoint(DebuggerNamespace *ns, const BreakPoint &db_bp);
     void clear_data_breakpoints();
-    // also return associated monitor id, if any
-    std::optional<uint64_t> remove_data_breakpoint(uint64_t bp_id);
+    // also return associated monitor ids that are not needed anymore
+    std::vector<uint64_t> remove_data_breakpoint(uint64_t bp_id, uint32_t ns_id);
 
     // breakpoint mode
     bool breakpoint_only() const;
@@ -92,7 +92,6 @@ private:
     EvaluationMode evaluation_mode_ = EvaluationMode::BreakPointOnly;
 
     std::vector<std::unique_ptr<DebugBreakPoint>> breakpoints_;
-    std::unordered_set<uint32_t> inserted_breakpoints_;
     // look up table for ordering of breakpoints
     std::unordered_map<uint32_t, uint64_t> bp_ordering_table_;
     std::vector<uint32_t> bp_ordering_;
@@ -113,7 +112,8 @@ private:
 
     std::vector<DebugBreakPoint *> create_next_breakpoints(
         const std::optional<BreakPoint> &bp_info);
-    std::unique_ptr<DebugBreakPoint> remove_breakpoint(uint64_t bp_id, DebugBreakPoint::Type type);
+    std::vector<std::unique_ptr<DebugBreakPoint>> remove_breakpoints(
+        const std::function<bool(const DebugBreakPoint &)> &pred);
     void remove_assert_breakpoints();
     // position in the execution order
     [[nodiscard]] uint64_t get_order(uint32_t bp_id) const;
-- 
2.43.0


From a13406ae9f099d332d35420187806b655d21de66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:09 +0000
Subject: [PATCH 037/104] fix: keep delayed values apart by namespace and depth

Reading the buffer of a variable delayed by more than one edge before it
is full was undefined behaviour, and adding a breakpoint again left
another watch behind.
---
 src/debug.cc   | 37 +++++++++++++++++++------------------
 src/debug.hh   |  8 ++++----
 src/monitor.cc |  2 +-
 3 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 8bbbd59..90dda18 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -464,7 +464,7 @@ std::string value_to_str(std::optional<int64_t> value, bool use_hex, uint32_t wi
 
 // NOLINTNEXTLINE
 std::string Debugger::get_value_str(uint32_t ns_id, const std::string &rtl_name, bool is_rtl,
-                                    bool use_delay) {
+                                    std::optional<uint32_t> delay_depth) {
     std::string value_str;
     if (is_rtl) {
         auto &rtl = namespaces_[ns_id]->rtl;
@@ -476,12 +476,13 @@ std::string Debugger::get_value_str(uint32_t ns_id, const std::string &rtl_name,
             width = width_opt ? *width_opt : 0u;
         }
 
-        if (use_delay) {
-            if (delayed_variables_.find(handle) == delayed_variables_.end()) [[unlikely]] {
+        if (delay_depth) {
+            auto pos = delayed_variables_.find({ns_id, handle, *delay_depth});
+            if (pos == delayed_variables_.end()) [[unlikely]] {
                 log_error("Internal error on handling delayed variables");
                 value_str = error_value_str;
             } else {
-                value_str = value_to_str(delayed_variables_.at(handle).value, use_hex_str_, width);
+                value_str = value_to_str(pos->second.value, use_hex_str_, width);
             }
         } else {
             auto value = rtl->get_value(handle);
@@ -1194,9 +1195,12 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
             auto var_names = resolve_context_name(var.value, ctx_var.name, bp->id, rtl, db_.get());
             for (auto const &[front_name, rtl_name] : var_names) {
                 using VariableType = SymbolTableProvider::VariableType;
+                std::optional<uint32_t> delay_depth;
+                if (static_cast<VariableType>(ctx_var.type) == VariableType::delay) {
+                    delay_depth = ctx_var.depth;
+                }
                 std::string value_str =
-                    get_value_str(bp->ns_id, rtl_name, var.is_rtl,
-                                  static_cast<VariableType>(ctx_var.type) == VariableType::delay);
+                    get_value_str(bp->ns_id, rtl_name, var.is_rtl, delay_depth);
                 scope.add_local_value(front_name, value_str);
             }
         }
@@ -1303,8 +1307,7 @@ std::string Debugger::get_full_name(uint32_t ns_id, uint64_t instance_id,
     return full_name;
 }
 
-std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle handle,
-                                                  bool use_delayed) {
+std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle handle) {
     // assume the name is already elaborated/mapped
     if (use_signal_cache_) [[unlikely]] {
         std::lock_guard guard(cached_signal_values_lock_);
@@ -1313,12 +1316,7 @@ std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle hand
         }
     }
     // need to actually get the value
-    std::optional<int64_t> value;
-    if (use_delayed && delayed_variables_.find(handle) != delayed_variables_.end()) [[unlikely]] {
-        return delayed_variables_.at(handle).value;
-    }
-
-    value = namespaces_[ns_id]->rtl->get_value(handle);
+    std::optional<int64_t> value = namespaces_[ns_id]->rtl->get_value(handle);
 
     if (!value)
         log_info(fmt::format("Failed to obtain RTL value for handle id 0x{0}",
@@ -1526,6 +1524,8 @@ void Debugger::update_delayed_values() {
         auto values =
             ns->monitor->get_watched_values(MonitorRequest::MonitorType::delay_clock_edge);
         for (auto &iter : delayed_variables_) {
+            // watch ids are local to the namespace
+            if (std::get<0>(iter.first) != ns->id) continue;
             auto &var_info = iter.second;
             auto pos = std::find_if(values.begin(), values.end(), [&var_info](auto const &iter) {
                 return iter.first == var_info.watch_id;
@@ -1556,16 +1556,17 @@ void Debugger::process_delayed_breakpoint(uint32_t bp_id) {
                 // we really don't care about front end name
                 // get current value as initialization. this allows the breakpoint next cycle
                 // has the proper value before monitor logic kicks in
+                auto *handle = rtl->get_handle(rtl_name);
+                std::tuple<uint32_t, vpiHandle, uint32_t> key = {ns->id, handle, ctx.depth};
+                // other breakpoints may use it already
+                if (!handle || delayed_variables_.find(key) != delayed_variables_.end()) continue;
                 auto value = rtl->get_value(rtl_name);
                 auto watch_id = monitor->add_monitor_variable(rtl_name, ctx.depth, value);
                 monitor->set_monitor_variable_condition(watch_id, func);
                 DelayedVariable delayed_var;
                 delayed_var.rtl_name = rtl_name;
                 delayed_var.watch_id = watch_id;
-                auto *handle = rtl->get_handle(rtl_name);
-                if (handle) {
-                    delayed_variables_.emplace(handle, delayed_var);
-                }
+                delayed_variables_.emplace(key, delayed_var);
             }
         }
     }
diff --git a/src/debug.hh b/src/debug.hh
index b331fc3..574234a 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -87,7 +87,8 @@ private:
         std::optional<int64_t> value;
         uint64_t watch_id;
     };
-    std::unordered_map<vpiHandle, DelayedVariable> delayed_variables_;
+    // indexed by namespace, handle, and depth
+    std::map<std::tuple<uint32_t, vpiHandle, uint32_t>, DelayedVariable> delayed_variables_;
 
     // options
     // if in single thread mode, instances with the same fn/ln won't be evaluated as a batch
@@ -124,7 +125,7 @@ private:
     bool has_cli_flag(const std::string &flag);
     [[nodiscard]] static std::string get_monitor_topic(uint64_t watch_id);
     std::string get_value_str(uint32_t ns_id, const std::string &rtl_name, bool is_rtl,
-                              bool use_delay = false);
+                              std::optional<uint32_t> delay_depth = std::nullopt);
     std::optional<std::string> resolve_var_name(uint32_t ns_id, const std::string &var_name,
                                                 const std::optional<uint64_t> &instance_id,
                                                 const std::optional<uint64_t> &breakpoint_id);
@@ -167,8 +168,7 @@ private:
     void start_breakpoint_evaluation();
 
     // cached wrapper
-    std::optional<int64_t> get_signal_value(uint32_t ns_id, vpiHandle handle,
-                                            bool use_delayed = false);
+    std::optional<int64_t> get_signal_value(uint32_t ns_id, vpiHandle handle);
     std::string get_full_name(uint32_t ns_id, uint64_t instance_id, const std::string &var_name);
 
     // callbacks
diff --git a/src/monitor.cc b/src/monitor.cc
index 17febb5..7ef35bd 100644
--- a/src/monitor.cc
+++ b/src/monitor.cc
@@ -115,7 +115,7 @@ std::vector<std::pair<uint64_t, std::optional<int64_t>>> Monitor::get_watched_va
                 // we assume this will be called every clock cycle
                 auto new_value = rtl_->get_value(watch_var->handle);
                 // we use the old value
-                auto old_value = *watch_var->get_value();
+                auto old_value = watch_var->get_value();
                 watch_var->set_value(new_value);
                 result.emplace_back(std::make_pair(watch_id, old_value));
             }
-- 
2.43.0


From b938721cc2ef86c6649e66b398b011c1a1cb94f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:26 +0000
Subject: [PATCH 038/104] fix: show the variables of a frame with their own
 values

Their RTL names were looked up once more as if they were names in scope,
which finds another variable where one is named like the signal of
another, and constants were taken for signals. Names in scope take
precedence over RTL names. Negative values are formatted as bits.
---
 src/debug.cc  | 50 +++++++++++++++++++++-------------------------
 src/symbol.cc | 55 +++++++++++++++++++++++----------------------------
 2 files changed, 48 insertions(+), 57 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 90dda18..bfc7e3d 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -445,6 +445,9 @@ std::string value_to_str(std::optional<int64_t> value, bool use_hex, uint32_t wi
         return Debugger::error_value_str;
     }
     if (use_hex) {
+        // negative numbers as well show the bits of the signal
+        auto bits = static_cast<uint64_t>(*value);
+        if (width > 0 && width < 64) bits &= (1ull << width) - 1;
         std::string format;
         if (width == 0) {
             format = "0x{0:X}";
@@ -455,7 +458,7 @@ std::string value_to_str(std::optional<int64_t> value, bool use_hex, uint32_t wi
             width = (width % 4 == 0) ? width / 4 : (width / 4 + 1);
             format = fmt::format("0x{{0:0{0}X}}", width);
         }
-        return fmt::format(format.c_str(), *value);
+        return fmt::format(format.c_str(), bits);
 
     } else {
         return fmt::format("{0}", *value);
@@ -1125,30 +1128,14 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
     }
 }
 
-std::vector<std::pair<std::string, std::string>> resolve_generator_name(std::string rtl_name_base,
-                                                                        const std::string &var_name,
-                                                                        uint32_t instance_id,
-                                                                        RTLSimulatorClient *rtl,
-                                                                        SymbolTableProvider *db) {
-    if (!rtl->is_absolute_path(rtl_name_base)) {
-        auto v = db->resolve_scoped_name_instance(rtl_name_base, instance_id);
-        if (v) rtl_name_base = *v;
+// the rtl name of a variable is relative to the instance the variable belongs to
+std::vector<std::pair<std::string, std::string>> resolve_instance_variable(
+    std::string rtl_name, const std::string &var_name,
+    const std::optional<std::string> &instance_name, RTLSimulatorClient *rtl) {
+    if (instance_name && !rtl->is_absolute_path(rtl_name)) {
+        rtl_name = fmt::format("{0}.{1}", *instance_name, rtl_name);
     }
-    auto var_names = rtl->resolve_rtl_variable(var_name, rtl_name_base);
-    return var_names;
-}
-
-std::vector<std::pair<std::string, std::string>> resolve_context_name(std::string rtl_name_base,
-                                                                      const std::string &var_name,
-                                                                      uint32_t bp_id,
-                                                                      RTLSimulatorClient *rtl,
-                                                                      SymbolTableProvider *db) {
-    if (!rtl->is_absolute_path(rtl_name_base)) {
-        auto v = db->resolve_scoped_name_breakpoint(rtl_name_base, bp_id);
-        if (v) rtl_name_base = *v;
-    }
-    auto var_names = rtl->resolve_rtl_variable(var_name, rtl_name_base);
-    return var_names;
+    return rtl->resolve_rtl_variable(var_name, rtl_name);
 }
 
 void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &bps) {
@@ -1182,9 +1169,14 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
 
         using namespace std::string_literals;
         for (auto const &[gen_var, var] : generator_values) {
+            if (!var.is_rtl) {
+                // constants are shown as they are
+                scope.add_generator_value(gen_var.name, var.value);
+                continue;
+            }
             // maybe need to resolve the name based on the variable
             auto var_names =
-                resolve_generator_name(var.value, gen_var.name, bp->instance_id, rtl, db_.get());
+                resolve_instance_variable(var.value, gen_var.name, instance_name, rtl);
             for (auto const &[front_name, rtl_name] : var_names) {
                 std::string value_str = get_value_str(bp->ns_id, rtl_name, var.is_rtl);
                 scope.add_generator_value(front_name, value_str);
@@ -1192,7 +1184,11 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
         }
 
         for (auto const &[ctx_var, var] : context_values) {
-            auto var_names = resolve_context_name(var.value, ctx_var.name, bp->id, rtl, db_.get());
+            if (!var.is_rtl) {
+                scope.add_local_value(ctx_var.name, var.value);
+                continue;
+            }
+            auto var_names = resolve_instance_variable(var.value, ctx_var.name, instance_name, rtl);
             for (auto const &[front_name, rtl_name] : var_names) {
                 using VariableType = SymbolTableProvider::VariableType;
                 std::optional<uint32_t> delay_depth;
@@ -1551,7 +1547,7 @@ void Debugger::process_delayed_breakpoint(uint32_t bp_id) {
         auto func = [this, bp]() { return eval_breakpoint(bp); };
 
         for (auto const &[ctx, v] : context_vars) {
-            auto var_names = resolve_context_name(v.value, ctx.name, bp_id, rtl, db_.get());
+            auto var_names = resolve_instance_variable(v.value, ctx.name, instance_name, rtl);
             for (auto const &[front_var, rtl_name] : var_names) {
                 // we really don't care about front end name
                 // get current value as initialization. this allows the breakpoint next cycle
diff --git a/src/symbol.cc b/src/symbol.cc
index 293054d..1af03d0 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -60,6 +60,25 @@ bool rtl_equivalent(const std::string &a, const std::string &b) {
     return true;
 }
 
+// find the variable by its name first, and then by its RTL name
+template <typename It>
+It find_scoped_variable(It begin, It end, const std::string &scoped_name) {
+    auto it = std::find_if(begin, end, [&scoped_name](auto const &v) {
+        return rtl_equivalent(v.first.name, scoped_name);
+    });
+    if (it != end) return it;
+    return std::find_if(begin, end,
+                        [&scoped_name](auto const &v) { return v.second.value == scoped_name; });
+}
+
+std::string get_scoped_rtl_name(const Variable &var, const std::string &inst_name) {
+    if (!var.is_rtl || var.value.starts_with(inst_name + ".")) {
+        return var.value;
+    } else {
+        return fmt::format("{0}.{1}", inst_name, var.value);
+    }
+}
+
 std::optional<std::string> SymbolTableProvider::resolve_scoped_name_breakpoint(
     const std::string &scoped_name, uint64_t breakpoint_id) {
     auto vars = get_context_variables(breakpoint_id);
@@ -69,22 +88,9 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_breakpoint(
     // Notice this bug in clang:
     // https://github.com/llvm/llvm-project/issues/44178
     // as a result, we cannot use std::views::reverse to reverse view the variables
-    // NOLINTNEXTLINE
-    for (auto it = vars.rbegin(); it != vars.rend(); it++) {
-        auto const &[ctx, var] = *it;
-        if (rtl_equivalent(ctx.name, scoped_name) || var.value == scoped_name) {
-            if (var.is_rtl) {
-                if (var.value.starts_with(*inst_name + ".")) {
-                    return var.value;
-                } else {
-                    return fmt::format("{0}.{1}", *inst_name, var.value);
-                }
-            } else {
-                return var.value;
-            }
-        }
-    }
-    return std::nullopt;
+    auto it = find_scoped_variable(vars.rbegin(), vars.rend(), scoped_name);
+    if (it == vars.rend()) return std::nullopt;
+    return get_scoped_rtl_name(it->second, *inst_name);
 }
 
 std::optional<std::string> SymbolTableProvider::resolve_scoped_name_instance(
@@ -92,20 +98,9 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_instance(
     auto vars = get_generator_variable(instance_id);
     auto inst_name = get_instance_name(instance_id);
     if (!inst_name) return std::nullopt;
-    for (auto const &[gen, var] : vars) {
-        if (rtl_equivalent(gen.name, scoped_name) || var.value == scoped_name) {
-            if (var.is_rtl) {
-                if (var.value.starts_with(*inst_name + ".")) {
-                    return var.value;
-                } else {
-                    return fmt::format("{0}.{1}", *inst_name, var.value);
-                }
-            } else {
-                return var.value;
-            }
-        }
-    }
-    return std::nullopt;
+    auto it = find_scoped_variable(vars.begin(), vars.end(), scoped_name);
+    if (it == vars.end()) return std::nullopt;
+    return get_scoped_rtl_name(it->second, *inst_name);
 }
 
 void SymbolTableProvider::set_get_symbol_value(
-- 
2.43.0


From a88e3af66f36ccac9b3017d1c7749c5c9dc0955d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:26 +0000
Subject: [PATCH 039/104] fix: constants of an instance and its id are
 available in expressions

---
 src/debug.cc     | 7 +++++--
 src/scheduler.cc | 7 +++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index bfc7e3d..e155c21 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -885,8 +885,11 @@ void Debugger::handle_evaluation(const EvaluationRequest &req, uint64_t conn_id)
             return;
         }
 
-        auto res =
-            set_expr_values(ns ? ns->id : 0, &expr, req.instance_id() ? *req.instance_id() : 0);
+        std::optional<uint64_t> instance_id = req.instance_id();
+        if (!instance_id && req.breakpoint_id()) {
+            instance_id = db_->get_instance_id(*req.breakpoint_id());
+        }
+        auto res = set_expr_values(ns ? ns->id : 0, &expr, instance_id ? *instance_id : 0);
 
         if (!res) {
             error_reason = "Unable to get symbol values";
diff --git a/src/scheduler.cc b/src/scheduler.cc
index 2bd6f70..4a97679 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -598,6 +598,13 @@ void validate_expr(RTLSimulatorClient *rtl, SymbolTableProvider *db, DebugExpres
                     name = fmt::format("{0}.{1}", *inst_name, symbol);
             }
         }
+        if (name && std::all_of(name->begin(), name->end(), ::isdigit)) {
+            // a constant
+            if (auto v = hgdb::util::stol(*name)) {
+                expr->set_static_values({{symbol, *v}});
+                continue;
+            }
+        }
         std::string full_name;
         if (name) [[likely]] {
             full_name = rtl->get_full_name(*name);
-- 
2.43.0


From 1622634806bac7c0192f552c548a4f050a8532aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:58 +0000
Subject: [PATCH 040/104] fix: nothing of a previous symbol table is left after
 a new connection

Namespaces, watches, delayed values and clock callbacks piled up, so that
breakpoints were evaluated several times per edge.
---
 src/debug.cc     | 42 ++++++++++++++++++++++++++++--------------
 src/debug.hh     |  1 +
 src/namespace.cc |  7 ++++---
 3 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index e155c21..c9ef891 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -50,6 +50,17 @@ void Debugger::initialize_db(std::unique_ptr<SymbolTableProvider> db) {
     // reset db_ for every new connection, and the scheduler, which refers to it
     scheduler_ = nullptr;
     db_ = nullptr;
+    // so do the values kept for its breakpoints
+    delayed_variables_.clear();
+    cached_signal_values_.clear();
+    {
+        std::lock_guard guard_name(cached_instance_name_lock_);
+        cached_instance_name_.clear();
+    }
+    for (auto const &ns : namespaces_) {
+        ns->monitor->remove_monitor_variables(MonitorRequest::MonitorType::data);
+        ns->monitor->remove_monitor_variables(MonitorRequest::MonitorType::delay_clock_edge);
+    }
     if (!db) return;
     db_ = std::move(db);
 
@@ -232,14 +243,7 @@ void Debugger::detach() {
         rtl->remove_call_back("eval_hgdb");
         log_info("Remove callback eval_hgdb");
     } else {
-        std::set<std::string> callbacks;
-        auto const callback_names = rtl->callback_names();
-        for (auto const &callback_name : callback_names) {
-            if (callback_name.find("Monitor") != std::string::npos) {
-                log_info("Remove callback " + callback_name);
-                rtl->remove_call_back(callback_name);
-            }
-        }
+        remove_cb_clocks();
     }
 
     // set evaluation mode to normal
@@ -996,13 +1000,10 @@ void Debugger::handle_set_value(const SetValueRequest &req, uint64_t conn_id) {
         // need to set the value
         auto res = rtl->set_value(*full_name, req.value());
         if (res) {
-            // we need to remove cached value
-            if (use_signal_cache_) {
-                auto *handle = rtl->get_handle(*full_name);
+            // we need to remove cached values, since other signals may depend on it
+            {
                 std::lock_guard guard(cached_signal_values_lock_);
-                if (cached_signal_values_.find(handle) != cached_signal_values_.end()) {
-                    cached_signal_values_.erase(handle);
-                }
+                cached_signal_values_.clear();
             }
             auto resp = GenericResponse(status_code::success, req);
             send_message(resp.str(log_enabled_), conn_id);
@@ -1423,6 +1424,17 @@ void Debugger::start_breakpoint_evaluation() {
     update_delayed_values();
 }
 
+void Debugger::remove_cb_clocks() {
+    auto *rtl = namespaces_.default_rtl();
+    auto const callback_names = rtl->callback_names();
+    for (auto const &callback_name : callback_names) {
+        if (callback_name.find("Monitor") != std::string::npos) {
+            log_info("Remove callback " + callback_name);
+            rtl->remove_call_back(callback_name);
+        }
+    }
+}
+
 void Debugger::add_cb_clocks() {
     // TODO:
     //     for now we assume all the designs share the same clock
@@ -1432,6 +1444,8 @@ void Debugger::add_cb_clocks() {
         // only trigger eval at the posedge clk
         auto *rtl = namespaces_.default_rtl();
         auto clock_signals = util::get_clock_signals(rtl, db_.get());
+        // the clocks of a previous symbol table may be different ones
+        remove_cb_clocks();
         bool r = rtl->monitor_signals(clock_signals, eval_hgdb_on_clk, this);
         if (!r || clock_signals.empty()) log_error("Failed to register evaluation callback");
     }
diff --git a/src/debug.hh b/src/debug.hh
index 574234a..beff383 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -174,6 +174,7 @@ private:
     // callbacks
     std::optional<std::function<void(hgdb::SymbolTableProvider &)>> on_client_connected_;
     void add_cb_clocks();
+    void remove_cb_clocks();
 
     // performance benchmark functions
     // only used to initialize the debugger to certain state, not for normal usage
diff --git a/src/namespace.cc b/src/namespace.cc
index 5a8ce9a..23727e3 100644
--- a/src/namespace.cc
+++ b/src/namespace.cc
@@ -33,9 +33,9 @@ void DebuggerNamespaceManager::compute_instance_mapping(SymbolTableProvider *db)
     auto mapping =
         default_rtl()->compute_instance_mapping(instances, default_rtl()->vpi()->has_defname());
 
-    for (auto i = 1u; i < mapping.size(); i++) {
-        add_namespace(default_rtl()->vpi());
-    }
+    // there may be namespaces of a previous symbol table
+    while (namespaces_.size() > std::max<size_t>(mapping.size(), 1)) namespaces_.pop_back();
+    while (namespaces_.size() < mapping.size()) add_namespace(default_rtl()->vpi());
 
     for (auto i = 0u; i < mapping.size(); i++) {
         namespaces_[i]->rtl->set_mapping(mapping[i].first, mapping[i].second);
@@ -45,6 +45,7 @@ void DebuggerNamespaceManager::compute_instance_mapping(SymbolTableProvider *db)
 }
 
 void DebuggerNamespaceManager::compute_mapping() {
+    mapped_namespaces_.clear();
     for (auto &ns : namespaces_) {
         mapped_namespaces_[ns->def_name].emplace_back(ns.get());
     }
-- 
2.43.0


From 86b4775de1ad15877449ab9b3b10b163a3209a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:58 +0000
Subject: [PATCH 041/104] fix: do not use cached signal values after writes and
 reversals

---
 src/debug.cc | 25 ++++++++++++++++---------
 src/debug.hh |  4 +++-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index c9ef891..fce2d29 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -52,7 +52,7 @@ void Debugger::initialize_db(std::unique_ptr<SymbolTableProvider> db) {
     db_ = nullptr;
     // so do the values kept for its breakpoints
     delayed_variables_.clear();
-    cached_signal_values_.clear();
+    clear_signal_cache();
     {
         std::lock_guard guard_name(cached_instance_name_lock_);
         cached_instance_name_.clear();
@@ -149,7 +149,10 @@ void Debugger::eval() {
         std::vector<DebugBreakPoint *> bps;
         {
             perf::PerfCount perf_get_bp("next breakpoints", perf_count_);
+            auto time = namespaces_.default_rtl()->get_simulation_time();
             bps = scheduler_->next_breakpoints();
+            // the values have changed if the time has been reversed
+            if (namespaces_.default_rtl()->get_simulation_time() != time) clear_signal_cache();
         }
 
         if (bps.empty()) break;
@@ -717,6 +720,7 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
             log_info(fmt::format("handle_command: jump ({0})", req.time()));
             if (!check_send_db_error(req, conn_id)) return;
             auto res = namespaces_.default_rtl()->rewind(req.time(), scheduler_->clock_handles());
+            clear_signal_cache();
             if (!res) {
                 status = status_code::error;
                 error = "Underlying RTL simulator does not support rewind";
@@ -1001,10 +1005,7 @@ void Debugger::handle_set_value(const SetValueRequest &req, uint64_t conn_id) {
         auto res = rtl->set_value(*full_name, req.value());
         if (res) {
             // we need to remove cached values, since other signals may depend on it
-            {
-                std::lock_guard guard(cached_signal_values_lock_);
-                cached_signal_values_.clear();
-            }
+            clear_signal_cache();
             auto resp = GenericResponse(status_code::success, req);
             send_message(resp.str(log_enabled_), conn_id);
             return;
@@ -1311,8 +1312,9 @@ std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle hand
     // assume the name is already elaborated/mapped
     if (use_signal_cache_) [[unlikely]] {
         std::lock_guard guard(cached_signal_values_lock_);
-        if (cached_signal_values_.find(handle) != cached_signal_values_.end()) {
-            return cached_signal_values_.at(handle);
+        auto pos = cached_signal_values_.find({ns_id, handle});
+        if (pos != cached_signal_values_.end()) {
+            return pos->second;
         }
     }
     // need to actually get the value
@@ -1325,7 +1327,7 @@ std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle hand
     if (value) {
         if (use_signal_cache_) {
             std::lock_guard guard(cached_signal_values_lock_);
-            cached_signal_values_.emplace(handle, *value);
+            cached_signal_values_.emplace(std::make_pair(ns_id, handle), *value);
         }
 
         return *value;
@@ -1420,10 +1422,15 @@ bool Debugger::add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp
 
 void Debugger::start_breakpoint_evaluation() {
     scheduler_->start_breakpoint_evaluation();
-    cached_signal_values_.clear();
+    clear_signal_cache();
     update_delayed_values();
 }
 
+void Debugger::clear_signal_cache() {
+    std::lock_guard guard(cached_signal_values_lock_);
+    cached_signal_values_.clear();
+}
+
 void Debugger::remove_cb_clocks() {
     auto *rtl = namespaces_.default_rtl();
     auto const callback_names = rtl->callback_names();
diff --git a/src/debug.hh b/src/debug.hh
index beff383..a372f7e 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -75,7 +75,8 @@ private:
     std::unique_ptr<Scheduler> scheduler_;
 
     // reduce VPI traffic
-    std::unordered_map<vpiHandle, int64_t> cached_signal_values_;
+    // handles of slices are local to the namespace
+    std::map<std::pair<uint32_t, vpiHandle>, int64_t> cached_signal_values_;
     std::mutex cached_signal_values_lock_;
     // reduce DB traffic and remapping computation
     std::unordered_map<uint64_t, std::string> cached_instance_name_;
@@ -166,6 +167,7 @@ private:
     std::vector<bool> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
     bool add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
     void start_breakpoint_evaluation();
+    void clear_signal_cache();
 
     // cached wrapper
     std::optional<int64_t> get_signal_value(uint32_t ns_id, vpiHandle handle);
-- 
2.43.0


From d326645c5c876e91a4d3a4ae30d04e93e06f9f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:36 +0000
Subject: [PATCH 042/104] fix: threads that evaluate breakpoints do not share
 result bytes

---
 src/debug.cc | 7 ++++---
 src/debug.hh | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index fce2d29..0f8ab85 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1370,8 +1370,9 @@ bool Debugger::eval_breakpoint(DebugBreakPoint *bp) {
     return false;
 }
 
-std::vector<bool> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *> &bps) {
-    std::vector<bool> hits(bps.size());
+std::vector<char> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *> &bps) {
+    // not std::vector<bool>, whose elements share bytes among the threads
+    std::vector<char> hits(bps.size());
     std::fill(hits.begin(), hits.end(), false);
     // most of the time is on getting simulation values, so using many threads
     // doesn't make any sense
@@ -1405,7 +1406,7 @@ std::vector<bool> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *
     return hits;
 }
 
-void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<bool> &result,
+void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<char> &result,
                                uint64_t start, uint64_t end) {
     for (auto index = start; index < end; index++) {
         bool r = eval_breakpoint(bps[index]);
diff --git a/src/debug.hh b/src/debug.hh
index a372f7e..a6c1cee 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -162,9 +162,9 @@ private:
     // scheduler
     bool should_trigger(DebugBreakPoint *bp);
     bool eval_breakpoint(DebugBreakPoint *bp);
-    void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<bool> &result,
+    void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<char> &result,
                          uint64_t start, uint64_t end);
-    std::vector<bool> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
+    std::vector<char> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
     bool add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
     void start_breakpoint_evaluation();
     void clear_signal_cache();
-- 
2.43.0


From 4e1f1b61bb7aeb88ec45483d63df117de15065f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:36 +0000
Subject: [PATCH 043/104] fix: log from several threads without sharing a
 buffer

---
 src/log.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/log.cc b/src/log.cc
index f0e73a7..d97997a 100644
--- a/src/log.cc
+++ b/src/log.cc
@@ -8,7 +8,9 @@
 // adapted from https://gist.github.com/polaris/adee936198995a6f8c697c419d21f734
 static std::string to_string(const std::chrono::system_clock::time_point& tp) {
     std::time_t t = std::chrono::system_clock::to_time_t(tp);
-    std::string ts = std::ctime(&t);
+    // messages are logged from several threads
+    char buf[64] = {};
+    std::string ts = ctime_r(&t, buf);
     ts.resize(ts.size() - 1);
     return ts;
 }
-- 
2.43.0


From d911af77093b6fe970505b0692d574ef2c213f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:34 +0000
Subject: [PATCH 044/104] fix: ignore malformed numbers and unrelated arguments
 in the settings

---
 src/debug.cc | 16 +++++++---------
 src/util.cc  |  4 +++-
 src/util.hh  |  1 +
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 0f8ab85..9db4bbd 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -379,15 +379,13 @@ void Debugger::send_error(const Request &req, const std::string &message, uint64
 uint16_t Debugger::get_port() {
     auto port_str = get_value_plus_arg("DEBUG_PORT");
     if (!port_str) return default_port_num;
-    uint16_t value;
-    try {
-        value = std::stoul(*port_str);
-    } catch (const std::invalid_argument &) {
-        value = default_port_num;
-    } catch (const std::out_of_range &) {
-        value = default_port_num;
+    // has to be a number, and a port
+    if (!std::all_of(port_str->begin(), port_str->end(), ::isdigit)) return default_port_num;
+    auto value = util::stoul(*port_str);
+    if (!value || *value > std::numeric_limits<uint16_t>::max()) {
+        return default_port_num;
     }
-    return value;
+    return static_cast<uint16_t>(*value);
 }
 
 std::optional<std::string> Debugger::get_value_plus_arg(const std::string &arg_name,
@@ -396,7 +394,7 @@ std::optional<std::string> Debugger::get_value_plus_arg(const std::string &arg_n
     auto const &args = namespaces_.default_rtl()->get_argv();
     auto const plus_arg = fmt::format("+{0}=", arg_name);
     for (auto const &arg : args) {
-        if (arg.find(plus_arg) != std::string::npos) {
+        if (arg.starts_with(plus_arg)) {
             auto value = arg.substr(plus_arg.size());
             return value;
         }
diff --git a/src/util.cc b/src/util.cc
index a3e4808..7b98155 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -41,8 +41,10 @@ std::string and_conditions(const std::string &cond1, const std::string &cond2) {
 }
 
 std::optional<uint64_t> stoul(const std::string &value) {
+    // std::stoul accepts negative numbers
+    if (value.find('-') != std::string::npos) return {};
     try {
-        return std::stol(value);
+        return std::stoul(value);
     } catch (std::exception &) {
         return {};
     }
diff --git a/src/util.hh b/src/util.hh
index 5d131fc..d0ee3ec 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -18,6 +18,7 @@ std::string join(T begin, T end, const std::string &sep) {
     // more efficient way will be using ostream_joiner,
     // but it is still experimental
     auto it = begin;
+    if (it == end) return {};
     stream << *it;
     it++;
     while (it != end) {
-- 
2.43.0


From 4b42734a1ce2ceab3c3188e14eb116aa01011e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:58 +0000
Subject: [PATCH 045/104] fix: never pass made-up slice handles to the
 simulator

The simulator was asked about the type and size of slices it does not
know, results were cached under the wrong name, the whole top bit and
string slices were computed wrongly, and indices were not checked.
---
 src/rtl.cc | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index e36525b..fdec889 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -80,10 +80,12 @@ PLI_INT32 VPIProvider::vpi_release_handle(vpiHandle object) {
 
 PLI_INT32 VPIProvider::vpi_control(PLI_INT32 operation, ...) {
     std::lock_guard guard(vpi_lock_);
+    // stop and finish take one integer. a va_list can't be passed on
     std::va_list args;
     va_start(args, operation);
-    auto result = ::vpi_control(operation, args);
+    auto value = va_arg(args, int);
     va_end(args);
+    auto result = ::vpi_control(operation, value);
     return result;
 }
 
@@ -169,7 +171,7 @@ vpiHandle RTLSimulatorClient::get_handle(const std::string &name) {
             // deal with verilator. remove []
             auto tokens = util::get_tokens(full_name, ".[]");
             ptr = get_handle(tokens);
-            if (ptr) handle_map_.emplace(name, ptr);
+            if (ptr) handle_map_.emplace(full_name, ptr);
         }
         return ptr;
     }
@@ -243,8 +245,10 @@ vpiHandle RTLSimulatorClient::access_arrays(StringIterator begin, StringIterator
         if (!std::all_of(idx.begin(), idx.end(), ::isdigit)) {
             return nullptr;
         }
-        auto index_value = std::stoi(idx);
-        var_handle = vpi_->vpi_handle_by_index(var_handle, index_value);
+        auto index_value = util::stoul(idx);
+        if (!index_value || *index_value > std::numeric_limits<PLI_INT32>::max()) return nullptr;
+        var_handle =
+            vpi_->vpi_handle_by_index(var_handle, static_cast<PLI_INT32>(*index_value));
         if (!var_handle) return nullptr;
         it++;
     }
@@ -255,8 +259,9 @@ int64_t get_slice(int64_t value, const std::tuple<vpiHandle, uint32_t, uint32_t>
     // notice that hi and lo are inclusive
     auto [parent, hi, lo] = info;
     auto v = static_cast<uint64_t>(value);
-    auto hi_mask = ~(std::numeric_limits<uint64_t>::max() << (hi + 1));
-    v = v & hi_mask;
+    // shifting by the width or more is undefined
+    if (lo > 63) return 0;
+    if (hi < 63) v = v & ~(std::numeric_limits<uint64_t>::max() << (hi + 1));
     v = v >> lo;
     return static_cast<int64_t>(v);
 }
@@ -325,12 +330,12 @@ std::string get_slice(const std::string &value,
     auto [parent, hi, lo] = info;
     // notice that it's in reverse order!
     // hi and lo are inclusive as in RTL
-    if (lo > value.size() - 1) {
+    if (lo >= value.size()) {
         return "0";
     }
 
-    auto pos = std::min<uint32_t>(value.size() - hi - 1, 0);
-    auto lo_pos = std::max<uint32_t>(value.size() - lo - 1, 0);
+    auto pos = hi < value.size() ? value.size() - hi - 1 : 0;
+    auto lo_pos = value.size() - lo - 1;
     auto result = value.substr(pos, lo_pos - pos + 1);
     // now we have binary result, need to convert it into hex
     // pad string to multiple of 4
@@ -382,7 +387,8 @@ std::optional<std::string> RTLSimulatorClient::get_str_value(vpiHandle handle, b
 }
 
 bool RTLSimulatorClient::set_value(vpiHandle handle, int64_t value) {
-    if (!handle) return false;
+    // part of a signal can't be set
+    if (!handle || mock_slice_handles_.find(handle) != mock_slice_handles_.end()) return false;
     s_vpi_value vpi_value;
     vpi_value.value.integer = static_cast<int>(value);
     vpi_value.format = vpiIntVal;
@@ -452,6 +458,10 @@ std::string RTLSimulatorClient::get_full_name(const std::string &name) const {
 }
 
 std::string RTLSimulatorClient::get_full_name(vpiHandle handle) {
+    if (auto pos = mock_slice_handles_.find(handle); pos != mock_slice_handles_.end()) {
+        auto [parent, hi, lo] = pos->second;
+        return fmt::format("{0}[{1}:{2}]", get_full_name(parent), hi, lo);
+    }
     auto const *res = vpi_->vpi_get_str(vpiFullName, handle);
     if (res) {
         return {res};
@@ -592,8 +602,9 @@ std::vector<std::pair<std::string, std::string>> RTLSimulatorClient::resolve_rtl
                             int property, std::vector<std::pair<std::string, std::string>> &res) {
         if (auto *it = vpi_->vpi_iterate(property, handle)) {
             while (auto *h = vpi_->vpi_scan(it)) {
-                auto *rtl = vpi_->vpi_get_str(vpiFullName, h);
-                auto *n = vpi_->vpi_get_str(vpiName, h);
+                // the simulator may use the same buffer for every string it returns
+                std::string rtl = vpi_->vpi_get_str(vpiFullName, h);
+                std::string n = vpi_->vpi_get_str(vpiName, h);
                 // make it recursive to account for
                 auto new_res = resolve_rtl_variable(front_name + "." + n, rtl);
                 res.insert(res.end(), new_res.begin(), new_res.end());
@@ -743,7 +754,7 @@ std::pair<bool, std::string> match(const std::string &full_name,
     auto full_tokens = util::get_tokens(full_name, ".");
     // the test bench should contain the top, as a result, the full token should be
     // at least + 1
-    if (full_tokens.size() < (tokens.size() - 1)) return false_;
+    if (full_tokens.size() < tokens.size()) return false_;
 
     for (auto i = 0u; i < tokens.size(); i++) {
         auto const &t_value = tokens[tokens.size() - 1 - i];
@@ -975,6 +986,8 @@ void RTLSimulatorClient::set_vpi_allocator(const std::function<vpiHandle()> &fun
 
 PLI_INT32 RTLSimulatorClient::get_vpi_type(vpiHandle handle) {
     if (!handle) return vpiError;
+    // the simulator doesn't know our slices
+    if (mock_slice_handles_.find(handle) != mock_slice_handles_.end()) return vpiPartSelect;
     std::lock_guard guard(cached_vpi_types_lock_);
     if (cached_vpi_types_.find(handle) != cached_vpi_types_.end()) [[likely]] {
         return cached_vpi_types_.at(handle);
@@ -987,6 +1000,10 @@ PLI_INT32 RTLSimulatorClient::get_vpi_type(vpiHandle handle) {
 
 uint32_t RTLSimulatorClient::get_vpi_size(vpiHandle handle) {
     if (!handle) return 0;
+    if (auto pos = mock_slice_handles_.find(handle); pos != mock_slice_handles_.end()) {
+        auto [parent, hi, lo] = pos->second;
+        return hi - lo + 1;
+    }
     std::lock_guard guard(cached_vpi_size_lock_);
     if (cached_vpi_size_.find(handle) != cached_vpi_size_.end()) [[likely]] {
         return cached_vpi_size_.at(handle);
@@ -1024,7 +1041,7 @@ std::optional<RTLSimulatorClient::AssertInfo> RTLSimulatorClient::get_assert_inf
         auto type = vpi_->vpi_get(vpiType, it);
         if (type == vpiModule) {
             // this is the module
-            res.full_name = vpi_get_str(vpiFullName, it);
+            res.full_name = vpi_->vpi_get_str(vpiFullName, it);
         } else if (type == vpiConstant) {
             auto const_type = vpi_->vpi_get(vpiConstType, it);
             if (const_type == vpiStringConst) {
-- 
2.43.0


From 0510ad9f01bb8616a052cef16e64b8d97618e30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:58 +0000
Subject: [PATCH 046/104] fix: do not resolve an unknown name to the enclosing
 module

---
 src/rtl.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rtl.cc b/src/rtl.cc
index fdec889..555be1c 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -214,6 +214,8 @@ vpiHandle RTLSimulatorClient::get_handle(const std::vector<std::string> &tokens)
                         ptr = access_arrays(pos, tokens.begin() + array_size_end + 1, ptr);
                         break;
                     }
+                    // a name that is not found does not mean the module it would be in
+                    ptr = nullptr;
                 }
             }
         }
-- 
2.43.0


From 6482074bab0504eb26f2df40253a7927e0598b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:46 +0000
Subject: [PATCH 047/104] fix: watch the assigned signal and not a source
 variable of the same name

---
 src/scheduler.cc | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 4a97679..2871102 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -406,16 +406,26 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
                 }
             }
             auto *rtl = target_ns->rtl.get();
-            auto expr = DebugExpression(target_var);
-            util::validate_expr(rtl, db_, &expr, db_bp.id, *db_bp.instance_id);
-            auto const &handles = expr.get_resolved_symbol_handles();
-            if (!expr.correct() || handles.size() != 1) {
-                log_error("Unable to validate variable in data breakpoint: " + target_var);
-                return nullptr;
+            // it's an RTL name in the instance. a source variable of the same name may be a
+            // different signal
+            vpiHandle handle = nullptr;
+            if (instance_name) {
+                auto full_name = fmt::format("{0}.{1}", *instance_name, target_var);
+                if (rtl->is_valid_signal(full_name)) handle = rtl->get_handle(full_name);
+            }
+            if (!handle) {
+                auto expr = DebugExpression(target_var);
+                util::validate_expr(rtl, db_, &expr, db_bp.id, *db_bp.instance_id);
+                auto const &handles = expr.get_resolved_symbol_handles();
+                if (!expr.correct() || handles.size() != 1) {
+                    log_error("Unable to validate variable in data breakpoint: " + target_var);
+                    return nullptr;
+                }
+                handle = handles.begin()->second;
             }
             auto *data_bp = insert_bp(target_ns);
             if (!data_bp) return nullptr;
-            data_bp->full_rtl_handle = handles.begin()->second;
+            data_bp->full_rtl_handle = handle;
             data_bp->full_rtl_name = rtl->get_full_name(data_bp->full_rtl_handle);
             data_bp->target_rtl_var_name = target_var;
             return data_bp;
-- 
2.43.0


From a95db86ba0a90d6abfe0a18e82da3e97b162f498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:46 +0000
Subject: [PATCH 048/104] fix: clear the data breakpoints of designs with
 several instances

---
 src/debug.cc | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 9db4bbd..f5c8d37 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1029,6 +1029,18 @@ void Debugger::handle_symbol(const SymbolRequest &req, uint64_t conn_id) {
 // NOLINTNEXTLINE
 void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t conn_id) {
     if (!check_send_db_error(req, conn_id)) return;
+    if (req.action() == DataBreakpointRequest::Action::clear) {
+        // concerns every namespace and no breakpoint in particular
+        scheduler_->clear_data_breakpoints();
+        for (auto const &n : namespaces_) {
+            n->monitor->remove_monitor_variables(MonitorRequest::MonitorType::data);
+        }
+        auto resp = GenericResponse(status_code::success, req);
+        send_message(resp.str(log_enabled_), conn_id);
+        log_info("data breakpoint cleared");
+        return;
+    }
+
     auto *ns = get_namespace(std::nullopt, req.breakpoint_id(), req.namespace_id(), namespaces_,
                              db_.get());
     if (!ns) {
@@ -1038,13 +1050,7 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
 
     switch (req.action()) {
         case DataBreakpointRequest::Action::clear: {
-            scheduler_->clear_data_breakpoints();
-            for (auto const &n : namespaces_) {
-                n->monitor->remove_monitor_variables(MonitorRequest::MonitorType::data);
-            }
-            auto resp = GenericResponse(status_code::success, req);
-            send_message(resp.str(log_enabled_), conn_id);
-            log_info("data breakpoint cleared");
+            // done already
             break;
         }
         case DataBreakpointRequest::Action::info:
-- 
2.43.0


From 0ebe24832f1d23724b9dc3b122fae1974f442da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:21 +0000
Subject: [PATCH 049/104] fix: reverse continue looks at every instance in
 single thread mode

---
 src/scheduler.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 2871102..7b684ec 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -187,6 +187,11 @@ std::vector<DebugBreakPoint *> Scheduler::next_reverse_breakpoints() {
     if (!single_thread_mode_) {
         scan_breakpoints(index, false, result);
     }
+    // the rest of the last one, e.g. in other namespaces. going further back skips them
+    for (auto i = index - static_cast<int64_t>(result.size()); i >= 0; i--) {
+        if (breakpoints_[i]->id != result.back()->id) break;
+        result.emplace_back(breakpoints_[i].get());
+    }
     // use the last one as the breakpoint id
     current_breakpoint_id_ = result.back()->id;
     mark_evaluated(false);
-- 
2.43.0


From 4285578b4249607d53f352c1ce2ed9c726ec8801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:50 +0000
Subject: [PATCH 050/104] fix: evaluate in the namespace that is asked for

---
 src/debug.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index f5c8d37..17f013e 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -881,8 +881,17 @@ void Debugger::handle_evaluation(const EvaluationRequest &req, uint64_t conn_id)
             util::validate_expr(ns->rtl.get(), db_.get(), &expr, req.breakpoint_id(),
                                 req.instance_id());
         } else {
-            find_matching_namespace_validate(expr, db_.get(), std::nullopt, std::nullopt,
-                                             namespaces_);
+            // the requested namespace goes first
+            bool resolved = false;
+            if (req.namespace_id() && *req.namespace_id() < namespaces_.size()) {
+                util::validate_expr(ns->rtl.get(), db_.get(), &expr, std::nullopt, std::nullopt);
+                resolved = expr.correct();
+                if (!resolved) expr.clear();
+            }
+            if (!resolved) {
+                find_matching_namespace_validate(expr, db_.get(), std::nullopt, std::nullopt,
+                                                 namespaces_);
+            }
         }
 
         if (!expr.correct()) {
-- 
2.43.0


From 831bdf60212e242df2a6b48d2dbde0f6ddae4641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:28 +0000
Subject: [PATCH 051/104] fix: expand arrays of structures

---
 src/rtl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 555be1c..fa205b4 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -624,8 +624,8 @@ std::vector<std::pair<std::string, std::string>> RTLSimulatorClient::resolve_rtl
             while (vpi_->vpi_scan(it)) {
                 auto sub_rtl_name = fmt::format("{0}[{1}]", rtl_name, idx);
                 auto sub_var_name = fmt::format("{0}.{1}", front_name, idx);
-                // make sure it's a valid rtl
-                if (!is_valid_signal(sub_rtl_name)) break;
+                // make sure it's a valid rtl. elements can be structs or arrays as well
+                if (!get_handle(sub_rtl_name)) break;
                 auto new_res = resolve_rtl_variable(sub_var_name, sub_rtl_name);
                 res.insert(res.end(), new_res.begin(), new_res.end());
                 idx++;
-- 
2.43.0


From 900d3fd64db01486b7bd74a2b47fc96f8107ab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:54 +0000
Subject: [PATCH 052/104] fix: stop the server in the thread that runs it

---
 src/server.cc | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/server.cc b/src/server.cc
index 7b697c1..59c90ff 100644
--- a/src/server.cc
+++ b/src/server.cc
@@ -58,25 +58,29 @@ void DebugServer::run(uint16_t port) {
 }
 
 void DebugServer::stop() {
-    try {
-        server_.stop_listening();
-    } catch (websocketpp::exception &) {
-        // don't care about the error of the websocket. just shutting it down
-    }
+    // neither the acceptor nor the connections' sockets can be used from two threads at once, so
+    // everything is shut down in the thread that runs the server
+    asio::dispatch(server_.get_io_service(), [this]() {
+        try {
+            server_.stop_listening();
+        } catch (websocketpp::exception &) {
+            // don't care about the error of the websocket. just shutting it down
+        }
 
-    // close all the ongoing connections
-    {
-        std::lock_guard guard(connections_lock_);
-        for (auto const &[id, conn] : connections_) {
-            // don't care about clients that are closing already
-            websocketpp::lib::error_code ec;
-            conn->close(websocketpp::close::status::going_away, "Server stopped upon user request",
-                        ec);
+        // close all the ongoing connections
+        {
+            std::lock_guard guard(connections_lock_);
+            for (auto const &[id, conn] : connections_) {
+                // don't care about clients that are closing already
+                websocketpp::lib::error_code ec;
+                conn->close(websocketpp::close::status::going_away,
+                            "Server stopped upon user request", ec);
+            }
+            connections_.clear();
+            connection_id_map_.clear();
         }
-        connections_.clear();
-        connection_id_map_.clear();
-    }
-    server_.stop();
+        server_.stop();
+    });
 }
 
 void DebugServer::send(const std::string &payload) {
-- 
2.43.0


From 110c3aab29fe6fe0dd50b13e49bb7f83de5fe656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:21 +0000
Subject: [PATCH 053/104] fix: send the values of change monitors

---
 src/debug.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/debug.cc b/src/debug.cc
index 17f013e..c64b0ae 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -178,6 +178,7 @@ void Debugger::eval() {
     }
 
     send_monitor_values(MonitorRequest::MonitorType::clock_edge);
+    send_monitor_values(MonitorRequest::MonitorType::changed);
 }
 
 [[maybe_unused]] bool Debugger::is_verilator() {
-- 
2.43.0


From 7f40f8ceec9c149a26e3279e9820af97e0fcb47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:10 +0000
Subject: [PATCH 054/104] fix: refuse requests nested too deeply to be parsed

---
 src/proto.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/proto.cc b/src/proto.cc
index 9d35d60..cac6f8b 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -686,8 +686,32 @@ std::string MonitorResponse::str(bool pretty_print) const {
     return to_string(document, pretty_print);
 }
 
+// whether the brackets of a json text are nested too deeply to be parsed recursively
+static bool exceeds_depth(const std::string &str, uint64_t max_depth = 256) {
+    uint64_t depth = 0;
+    bool in_string = false;
+    for (auto i = 0u; i < str.size(); i++) {
+        auto c = str[i];
+        if (in_string) {
+            if (c == '\\')
+                i++;
+            else if (c == '"')
+                in_string = false;
+        } else if (c == '"') {
+            in_string = true;
+        } else if (c == '[' || c == '{') {
+            if (++depth > max_depth) return true;
+        } else if ((c == ']' || c == '}') && depth > 0) {
+            depth--;
+        }
+    }
+    return false;
+}
+
 std::unique_ptr<Request> Request::parse_request(const std::string &str) {
     using namespace rapidjson;
+    // parsing is recursive
+    if (exceeds_depth(str)) return std::make_unique<ErrorRequest>("Json object nested too deeply");
     Document document;
     document.Parse(str.c_str());
 
-- 
2.43.0


From 1313b97b47b04b93c2485c88f62a5ffa8c0448a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:10 +0000
Subject: [PATCH 055/104] fix: answer requests that are not valid UTF-8

---
 src/proto.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/proto.cc b/src/proto.cc
index cac6f8b..ef92fbd 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -708,6 +708,14 @@ static bool exceeds_depth(const std::string &str, uint64_t max_depth = 256) {
     return false;
 }
 
+// strings of a request show up in its response, which has to be valid UTF-8
+static bool is_valid_utf8(const rapidjson::Document &document) {
+    using namespace rapidjson;
+    StringBuffer buffer;
+    Writer<StringBuffer, UTF8<>, UTF8<>, CrtAllocator, kWriteValidateEncodingFlag> writer(buffer);
+    return document.Accept(writer);
+}
+
 std::unique_ptr<Request> Request::parse_request(const std::string &str) {
     using namespace rapidjson;
     // parsing is recursive
@@ -715,7 +723,8 @@ std::unique_ptr<Request> Request::parse_request(const std::string &str) {
     Document document;
     document.Parse(str.c_str());
 
-    if (document.HasParseError()) return std::make_unique<ErrorRequest>("Invalid json object");
+    if (document.HasParseError() || !is_valid_utf8(document))
+        return std::make_unique<ErrorRequest>("Invalid json object");
 
     std::string error;
     // get token
-- 
2.43.0


From 0ccf4df6cfd91a6888c460f794505ed88100aada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 056/104] fix: make symbol tables over TCP work

---
 src/symbol.cc | 55 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index 1af03d0..2515c89 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -236,21 +236,52 @@ public:
         s_ = std::make_unique<asio::ip::tcp::socket>(*io_context_);
         asio::ip::tcp::resolver resolver(*io_context_);
         try {
-            auto endpoint = resolver.resolve(hostname, std::to_string(port))->endpoint();
-            s_->connect(endpoint);
+            asio::connect(*s_, resolver.resolve(hostname, std::to_string(port)));
         } catch (asio::system_error &e) {
             has_error = true;
         }
     }
-    void send(const std::string &msg) override { asio::write(*s_, asio::buffer(msg)); }
+    void send(const std::string &msg) override {
+        asio::error_code ec;
+        // nothing left over from previous messages should be mistaken for the answer
+        buffer_.clear();
+        asio::write(*s_, asio::buffer(msg), ec);
+    }
 
     std::string receive() override {
-        asio::mutable_buffer buff;
-        asio::read(*s_, buff);
-        // assume it's well-formed
-        // and in ascii
-        std::string_view data(reinterpret_cast<char *>(buff.data()), buff.size());
-        return std::string(data);
+        // messages are not delimited: read until the json object is complete
+        std::array<char, 4096> data = {};
+        uint64_t pos = 0, depth = 0;
+        bool in_string = false;
+        while (true) {
+            for (; pos < buffer_.size(); pos++) {
+                auto c = buffer_[pos];
+                if (in_string) {
+                    if (c == '\\') {
+                        // the escaped character may not be here yet
+                        if (pos + 1 == buffer_.size()) break;
+                        pos++;
+                    } else if (c == '"') {
+                        in_string = false;
+                    }
+                } else if (c == '"' && depth > 0) {
+                    in_string = true;
+                } else if (c == '{' || c == '[') {
+                    depth++;
+                } else if (c == '}' || c == ']') {
+                    if (depth <= 1) return buffer_.substr(0, pos + 1);
+                    depth--;
+                } else if (depth == 0 && !std::isspace(static_cast<unsigned char>(c))) {
+                    // not an object
+                    return buffer_;
+                }
+            }
+            asio::error_code ec;
+            auto size = s_->read_some(asio::buffer(data), ec);
+            // the peer is gone
+            if (ec) return {};
+            buffer_.append(data.data(), size);
+        }
     }
 
     ~TCPNetworkProvider() override = default;
@@ -258,6 +289,7 @@ public:
 private:
     std::unique_ptr<asio::io_context> io_context_;
     std::unique_ptr<asio::ip::tcp::socket> s_;
+    std::string buffer_;
 };
 
 class WSNetworkProvider : public NetworkProvider {
@@ -505,11 +537,12 @@ std::unique_ptr<SymbolTableProvider> create_symbol_table(const std::string &file
             return nullptr;
         }
         auto port = util::stoul(tokens.back());
-        if (!port) {
+        if (!port || *port > std::numeric_limits<uint16_t>::max()) {
             log::log(log::log_level::error, "Invalid TCP port number " + tokens.back());
             return nullptr;
         }
-        auto hostname = tokens[1];
+        // what's between the slashes and the port
+        auto hostname = tokens[1].substr(2);
         auto tcp = std::make_unique<TCPNetworkProvider>(hostname, *port);
         if (tcp->has_error) {
             log::log(log::log_level::error, "Invalid TCP UTI " + filename);
-- 
2.43.0


From 129c4a8e7da0942e544ef9452642c6cfd4950688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 057/104] fix: survive lost and failed connections to a symbol
 table server

---
 src/symbol.cc | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index 2515c89..373e814 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -1,5 +1,6 @@
 #include "symbol.hh"
 
+#include <atomic>
 #include <filesystem>
 #include <mutex>
 #include <unordered_set>
@@ -301,21 +302,33 @@ public:
         client_->init_asio();
 
         auto on_message = [this](const websocketpp::connection_hdl &, const MessagePtr &msg) {
-            payload_ = msg->get_payload();
+            {
+                std::lock_guard guard(payload_lock_);
+                payload_ = msg->get_payload();
+            }
             has_message_.ready();
         };
 
         client_->set_message_handler(on_message);
 
-        RuntimeLock l;
-
-        auto on_open = [this, &l](const websocketpp::connection_hdl &handle) {
+        auto on_open = [this](const websocketpp::connection_hdl &handle) {
             connection_handle_ = handle;
-            l.ready();
+            connected_.ready();
         };
 
         client_->set_open_handler(on_open);
 
+        client_->set_fail_handler([this](const websocketpp::connection_hdl &) {
+            has_error = true;
+            connected_.ready();
+        });
+
+        // there won't be any answer once the connection is closed
+        client_->set_close_handler([this](const websocketpp::connection_hdl &) {
+            closed_ = true;
+            has_message_.ready();
+        });
+
         websocketpp::lib::error_code ec;
         Client::connection_ptr con = client_->get_connection(uri, ec);
         if (ec) {
@@ -329,12 +342,18 @@ public:
         bg_client_thread_ = std::thread([this]() { client_->run(); });
 
         // block until it's properly connected
-        l.wait();
+        connected_.wait();
     }
 
     void send(const std::string &msg) override {
         std::lock_guard guard(lock);
         websocketpp::lib::error_code ec;
+        // only what comes from now on can be the answer
+        has_message_.reset();
+        {
+            std::lock_guard payload_guard(payload_lock_);
+            payload_.clear();
+        }
         if (client_) [[likely]] {
             client_->send(connection_handle_, msg, websocketpp::frame::opcode::text, ec);
         }
@@ -342,13 +361,15 @@ public:
 
     std::string receive() override {
         std::lock_guard guard(lock);
-        has_message_.wait();
-        return payload_;
+        if (!closed_) has_message_.wait();
+        std::lock_guard payload_guard(payload_lock_);
+        return std::move(payload_);
     }
 
     ~WSNetworkProvider() override {
         client_->stop();
-        bg_client_thread_.join();
+        // not started if the URI is invalid
+        if (bg_client_thread_.joinable()) bg_client_thread_.join();
     }
 
 private:
@@ -358,8 +379,11 @@ private:
 
     // synchronization using a spin lock
     std::mutex lock;
+    RuntimeLock connected_;
     RuntimeLock has_message_;
+    std::mutex payload_lock_;
     std::string payload_;
+    std::atomic<bool> closed_ = false;
 
     std::thread bg_client_thread_;
     websocketpp::connection_hdl connection_handle_;
-- 
2.43.0


From 68107b63c673bac458c4c2b17a710bec544b0150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 058/104] fix: do not ask the server for an instance without a
 name

---
 src/symbol.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbol.cc b/src/symbol.cc
index 373e814..f85da28 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -436,6 +436,8 @@ public:
     }
 
     std::optional<uint64_t> get_instance_id(const std::string &instance_name) override {
+        // the request would ask for the instance of a breakpoint
+        if (instance_name.empty()) return std::nullopt;
         SymbolRequest req(SymbolRequest::request_type::get_instance_id);
         req.instance_name = instance_name;
 
-- 
2.43.0


From b3bd30d2414d209e19cc5810bc09b24370c98a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:03 +0000
Subject: [PATCH 059/104] fix: ignore symbol table answers nested too deeply to
 be parsed

---
 src/proto.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/proto.cc b/src/proto.cc
index ef92fbd..6fc6e10 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -1442,6 +1442,8 @@ std::optional<GeneratorVariable> parse_generator_variable(const rapidjson::Value
 // NOLINTNEXTLINE
 void SymbolResponse::parse(const std::string &str) {
     using namespace rapidjson;
+    // parsing is recursive
+    if (exceeds_depth(str)) return;
     Document document;
     document.Parse(str.c_str());
     if (document.HasParseError() || !document.IsObject()) return;
-- 
2.43.0


From 528a63101468c3bf2b5cd5af7643257986c1d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:15 +0000
Subject: [PATCH 060/104] fix: attach to Verilator again after being detached

---
 src/debug.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index c64b0ae..1048b2a 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -538,6 +538,12 @@ PLI_INT32 eval_hgdb_on_clk(p_cb_data cb_data) {
     return 0;
 }
 
+// Verilator is evaluated whenever the simulation time changes
+PLI_INT32 eval_hgdb_on_time(p_cb_data cb_data) {
+    reinterpret_cast<hgdb::Debugger *>(cb_data->user_data)->eval();
+    return 0;
+}
+
 void Debugger::handle_connection(const ConnectionRequest &req, uint64_t conn_id) {
     // if we have a debug cli flag, don't load the db
     bool success = true;
@@ -1461,10 +1467,14 @@ void Debugger::add_cb_clocks() {
     // TODO:
     //     for now we assume all the designs share the same clock
     //     this may not be the case
-    if (!namespaces_.empty() && namespaces_.default_rtl() &&
-        !namespaces_.default_rtl()->is_verilator()) {
+    if (namespaces_.empty() || !namespaces_.default_rtl()) return;
+    auto *rtl = namespaces_.default_rtl();
+    if (rtl->is_verilator()) {
+        // only if it has been removed, i.e. after being detached
+        auto const *r = rtl->add_call_back("eval_hgdb", cbNextSimTime, eval_hgdb_on_time, nullptr, this);
+        if (!r) log_error("Failed to register evaluation callback");
+    } else {
         // only trigger eval at the posedge clk
-        auto *rtl = namespaces_.default_rtl();
         auto clock_signals = util::get_clock_signals(rtl, db_.get());
         // the clocks of a previous symbol table may be different ones
         remove_cb_clocks();
-- 
2.43.0


From cfa1c10e04160a96a7a68cbc751a514ecd283331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:56 +0000
Subject: [PATCH 061/104] fix: prefix the design with the full name of its
 instance

---
 src/rtl.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index fa205b4..de78d7a 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -754,9 +754,9 @@ std::pair<bool, std::string> match(const std::string &full_name,
     static const std::pair<bool, std::string> false_ = {false, ""};
     if (tokens.empty()) return false_;
     auto full_tokens = util::get_tokens(full_name, ".");
-    // the test bench should contain the top, as a result, the full token should be
+    // the top is above the matched tokens, as a result, the full token should be
     // at least + 1
-    if (full_tokens.size() < tokens.size()) return false_;
+    if (full_tokens.size() <= tokens.size()) return false_;
 
     for (auto i = 0u; i < tokens.size(); i++) {
         auto const &t_value = tokens[tokens.size() - 1 - i];
@@ -764,8 +764,8 @@ std::pair<bool, std::string> match(const std::string &full_name,
         if (t_value != ref_value) return false_;
     }
 
-    // compute the prefix
-    auto size_diff = static_cast<uint32_t>(full_tokens.size() - tokens.size()) + 1;
+    // compute the prefix, which is the full name of the top
+    auto size_diff = static_cast<uint32_t>(full_tokens.size() - tokens.size());
     auto prefix =
         fmt::format("{0}.", fmt::join(full_tokens.begin(), full_tokens.begin() + size_diff, "."));
 
-- 
2.43.0


From 5b4afbad760b3134dc23c4d07752683a03b7c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:16 +0000
Subject: [PATCH 062/104] fix: select from signals below scopes with indices

---
 src/rtl.cc | 29 +++++++++++++++++++++++++----
 src/rtl.hh |  1 +
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index de78d7a..b6a6c92 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -167,10 +167,13 @@ vpiHandle RTLSimulatorClient::get_handle(const std::string &name) {
             // if we actually found the handle, need to store it
             handle_map_.emplace(full_name, ptr);
         } else {
-            // full back to brute-force resolving names. usually we have to
-            // deal with verilator. remove []
-            auto tokens = util::get_tokens(full_name, ".[]");
-            ptr = get_handle(tokens);
+            ptr = get_selected_handle(full_name);
+            if (!ptr) {
+                // full back to brute-force resolving names. usually we have to
+                // deal with verilator. remove []
+                auto tokens = util::get_tokens(full_name, ".[]");
+                ptr = get_handle(tokens);
+            }
             if (ptr) handle_map_.emplace(full_name, ptr);
         }
         return ptr;
@@ -230,6 +233,24 @@ vpiHandle RTLSimulatorClient::get_handle(const std::vector<std::string> &tokens)
     }
 }
 
+vpiHandle RTLSimulatorClient::get_selected_handle(const std::string &name) {
+    // only the last pair of brackets is a selection. there can be others in the names of the
+    // scopes, e.g. generate blocks and instance arrays
+    if (!name.ends_with(']')) return nullptr;
+    auto pos = name.find_last_of('[');
+    if (pos == std::string::npos) return nullptr;
+    auto base = name.substr(0, pos);
+    auto *parent = get_handle_raw(base);
+    if (!parent) parent = get_selected_handle(base);
+    // nothing can be selected from a module or a slice
+    if (!parent || get_vpi_type(parent) == vpiModule ||
+        mock_slice_handles_.find(parent) != mock_slice_handles_.end())
+        return nullptr;
+    std::vector<std::string> select = {name.substr(pos + 1, name.size() - pos - 2)};
+    if (select[0].find(':') != std::string::npos) return add_mock_slice_vpi(parent, select[0]);
+    return access_arrays(select.begin(), select.end(), parent);
+}
+
 bool RTLSimulatorClient::is_valid_signal(const std::string &name) {
     auto *handle = get_handle(name);
     if (!handle) return false;
diff --git a/src/rtl.hh b/src/rtl.hh
index d829b69..aceb9da 100644
--- a/src/rtl.hh
+++ b/src/rtl.hh
@@ -230,6 +230,7 @@ private:
         custom_hierarchy_func_;
     vpiHandle add_mock_slice_vpi(vpiHandle parent, const std::string &slice);
     vpiHandle get_handle_raw(const std::string &handle_name);
+    vpiHandle get_selected_handle(const std::string &name);
 };
 }  // namespace hgdb
 
-- 
2.43.0


From 90ef11e9543433e3399b050976588fb9f224f238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:22 +0000
Subject: [PATCH 063/104] fix: read slices above the lower 32 bits

---
 src/rtl.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/rtl.cc b/src/rtl.cc
index b6a6c92..5b1562f 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -289,6 +289,17 @@ int64_t get_slice(int64_t value, const std::tuple<vpiHandle, uint32_t, uint32_t>
     return static_cast<int64_t>(v);
 }
 
+int64_t get_slice_value(const std::string &value,
+                        const std::tuple<vpiHandle, uint32_t, uint32_t> &info) {
+    // the value is in binary. hi and lo are inclusive
+    auto [parent, hi, lo] = info;
+    uint64_t result = 0;
+    for (uint64_t i = lo; i <= hi && i < value.size() && i - lo < 64; i++) {
+        if (value[value.size() - 1 - i] == '1') result |= 1ull << (i - lo);
+    }
+    return static_cast<int64_t>(result);
+}
+
 std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_signal) {
     if (!handle) [[unlikely]] {
         return std::nullopt;
@@ -318,6 +329,12 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
     }
 
     s_vpi_value v;
+    // an integer only has the lower 32 bits
+    if (is_slice_handle && std::get<1>(mock_slice_handles_.at(target_handle)) > 31) [[unlikely]] {
+        v.format = vpiBinStrVal;
+        vpi_->vpi_get_value(handle, &v);
+        return get_slice_value(v.value.str, mock_slice_handles_.at(target_handle));
+    }
     v.format = vpiIntVal;
     vpi_->vpi_get_value(handle, &v);
     int64_t result = v.value.integer;
-- 
2.43.0


From 951e03ba9ef95a0c3d404d5e6c1801d1811db08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:29 +0000
Subject: [PATCH 064/104] fix: resolve several $parent in a row

---
 src/rtl.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 5b1562f..09c15e9 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -618,7 +618,10 @@ std::string resolve_rtl_path(const std::string &path) {
     for (auto i = 1u; i < tokens.size(); i++) {
         if (tokens[i] == "$parent") {
             tokens[i] = "";
-            tokens[i - 1] = "";
+            // there can be several of them in a row
+            auto j = i;
+            while (j > 0 && tokens[j].empty()) j--;
+            tokens[j] = "";
         }
     }
     // filter empty ones
-- 
2.43.0


From e94e0ffe768adab58d03095feac142043eff4a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:41 +0000
Subject: [PATCH 065/104] fix: do not carry over the column of another initial
 breakpoint

---
 src/debug.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index 1048b2a..b780fae 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1504,7 +1504,8 @@ void Debugger::setup_init_breakpoint_from_env() {
             std::cerr << "Invalid breakpoint expression " << breakpoint_name << std::endl;
             continue;
         }
-        BreakPoint breakpoint;
+        // the column is optional
+        BreakPoint breakpoint{};
         breakpoint.filename = fn_ln[0];
         auto ln = util::stoul(fn_ln[1]);
         if (!ln) {
-- 
2.43.0


From eb5f29f4073122438669a3edf43984c7d1463ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:52 +0000
Subject: [PATCH 066/104] fix: turn settings on with +NAME=1

---
 src/debug.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index b780fae..c000886 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -408,9 +408,11 @@ bool Debugger::get_test_plus_arg(const std::string &arg_name, bool check_env) {
     if (namespaces_.empty()) return false;
     auto const &args = namespaces_.default_rtl()->get_argv();
     // we check env the last since we allow plus args to override env values
+    // both +NAME and +NAME=1 turn it on
     auto plus_arg = "+" + arg_name;
-    auto r = std::any_of(args.begin(), args.end(),
-                         [&plus_arg](const auto &arg) { return arg == plus_arg; });
+    auto r = std::any_of(args.begin(), args.end(), [&plus_arg](const auto &arg) {
+        return arg == plus_arg || arg == plus_arg + "=1";
+    });
 
     // check env as well if allowed
     if (!r && check_env) {
-- 
2.43.0


From 131b3e5b0d9ea04d523d3f9cfc4ea9d5af9abb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:03 +0000
Subject: [PATCH 067/104] fix: refuse line and column numbers out of range

---
 src/debug.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index c000886..eb2ed4b 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1486,6 +1486,13 @@ void Debugger::add_cb_clocks() {
 }
 
 void Debugger::setup_init_breakpoint_from_env() {
+    // only digits, and in the range of line and column numbers
+    auto parse_num = [](const std::string &str) -> std::optional<uint32_t> {
+        if (!std::all_of(str.begin(), str.end(), ::isdigit)) return std::nullopt;
+        auto value = util::stoul(str);
+        if (!value || *value > std::numeric_limits<uint32_t>::max()) return std::nullopt;
+        return static_cast<uint32_t>(*value);
+    };
     uint64_t i = 0;
     while (true) {
         auto breakpoint_name = fmt::format(DEBUG_BREAKPOINT_ENV, i++);
@@ -1509,14 +1516,14 @@ void Debugger::setup_init_breakpoint_from_env() {
         // the column is optional
         BreakPoint breakpoint{};
         breakpoint.filename = fn_ln[0];
-        auto ln = util::stoul(fn_ln[1]);
+        auto ln = parse_num(fn_ln[1]);
         if (!ln) {
             std::cerr << "Invalid breakpoint expression " << breakpoint_name << std::endl;
             continue;
         }
         breakpoint.line_num = *ln;
         if (fn_ln.size() == 3) {
-            auto cn = util::stoul(fn_ln[2]);
+            auto cn = parse_num(fn_ln[2]);
             if (!cn) {
                 std::cerr << "Invalid breakpoint expression " << breakpoint_name << std::endl;
                 continue;
-- 
2.43.0


From 2b13614863ac8a7fa0bd9dacf831ba8c279b2d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:17 +0000
Subject: [PATCH 068/104] fix: start again on a port that was just used

---
 src/server.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server.cc b/src/server.cc
index 59c90ff..4b91d1f 100644
--- a/src/server.cc
+++ b/src/server.cc
@@ -49,6 +49,8 @@ DebugServer::DebugServer(bool enable_logging) {
 
     // initialize Asio
     server_.init_asio();
+    // connections that were just closed do not keep the port
+    server_.set_reuse_addr(true);
 }
 
 void DebugServer::run(uint16_t port) {
-- 
2.43.0


From dba44bf3611cfb3c11381a115ccfe6b40bdc5a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:22 +0000
Subject: [PATCH 069/104] fix: do not add a zero byte to the end of VCD files

---
 tools/vcd/vcd.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/vcd/vcd.cc b/tools/vcd/vcd.cc
index f2e94f7..26fd175 100644
--- a/tools/vcd/vcd.cc
+++ b/tools/vcd/vcd.cc
@@ -25,7 +25,8 @@ std::string next_token(std::istream &stream) {
     uint64_t length = 0;
     while (!stream.eof()) {
         char c = '\0';
-        stream.get(c);
+        // nothing is read at the end of the file
+        if (!stream.get(c)) break;
         if (c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f') {
             if (length == 0)
                 continue;
-- 
2.43.0


From ab95bbc56504241164394c8f86659b24cb268821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:26 +0000
Subject: [PATCH 070/104] fix: end unterminated sections at the end of VCD
 files

---
 tools/vcd/vcd.cc | 8 ++++++--
 tools/vcd/vcd.hh | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tools/vcd/vcd.cc b/tools/vcd/vcd.cc
index 26fd175..ecae1e3 100644
--- a/tools/vcd/vcd.cc
+++ b/tools/vcd/vcd.cc
@@ -78,7 +78,7 @@ bool VCDParser::parse() {  // NOLINT
             case sv::Version:
             case sv::Timescale:
             case sv::Comment: {
-                parse_meta(meta_map.at(token_type));
+                if (!parse_meta(meta_map.at(token_type))) return false;
                 break;
             }
             case sv::Scope: {
@@ -147,12 +147,14 @@ VCDParser::~VCDParser() {
     }
 }
 
-void VCDParser::parse_meta(VCDMetaInfo::MetaType type) {
+bool VCDParser::parse_meta(VCDMetaInfo::MetaType type) {
     std::stringstream ss;
     std::string token;
     uint64_t start_pos = tellg();
 
     while ((token = next_token(stream_)) != end_str) {
+        // the file ends within the section
+        if (token.empty()) return check_end(token);
         ss << " " << token;
     }
     if (on_meta_info_) {
@@ -161,6 +163,7 @@ void VCDParser::parse_meta(VCDMetaInfo::MetaType type) {
         meta_info.end_pos = tellg();
         (*on_meta_info_)(meta_info);
     }
+    return true;
 }
 
 bool VCDParser::parse_scope_def() {
@@ -247,6 +250,7 @@ bool VCDParser::parse_vcd_values() {  // NOLINT
             if (on_dump_var_action_) (*on_dump_var_action_)(token);
             while (true) {
                 token = next_token(stream_);
+                if (token.empty()) return check_end(token);
                 if (token == "$end") {
                     break;
                 } else if (std::string("01xz").find(token[0]) != std::string::npos) {
diff --git a/tools/vcd/vcd.hh b/tools/vcd/vcd.hh
index b52989b..5f14601 100644
--- a/tools/vcd/vcd.hh
+++ b/tools/vcd/vcd.hh
@@ -87,7 +87,7 @@ private:
 
 protected:
     // parser helpers
-    void parse_meta(VCDMetaInfo::MetaType type);
+    bool parse_meta(VCDMetaInfo::MetaType type);
     bool parse_scope_def();
     bool parse_var_def();
     bool parse_vcd_values();
-- 
2.43.0


From 1f335e1a12b2109640488349b36c2e1a1c245f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:31 +0000
Subject: [PATCH 071/104] fix: read 64-bit times and refuse malformed numbers
 in VCD files

---
 tools/vcd/vcd.cc | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/tools/vcd/vcd.cc b/tools/vcd/vcd.cc
index ecae1e3..e8a82b2 100644
--- a/tools/vcd/vcd.cc
+++ b/tools/vcd/vcd.cc
@@ -1,6 +1,8 @@
 #include "vcd.hh"
 
+#include <algorithm>
 #include <filesystem>
+#include <limits>
 #include <sstream>
 
 namespace hgdb::vcd {
@@ -42,6 +44,15 @@ std::string next_token(std::istream &stream) {
 
 std::string next_token(std::istream *stream) { return next_token(*stream); }
 
+std::optional<uint64_t> parse_num(const std::string &token) {
+    if (token.empty() || !std::all_of(token.begin(), token.end(), ::isdigit)) return std::nullopt;
+    try {
+        return std::stoull(token);
+    } catch (const std::out_of_range &) {
+        return std::nullopt;
+    }
+}
+
 bool VCDParser::parse() {  // NOLINT
     if (has_error_) return false;
     // the code below is mostly designed by Teguh Hofstee (https://github.com/hofstee)
@@ -187,7 +198,13 @@ bool VCDParser::parse_var_def() {
     static VCDVarDef var_def;
     var_def.start_pos = tellg();
     var_def.type = next_token(stream_);
-    var_def.width = std::stoul(next_token(stream_));
+    auto width = next_token(stream_);
+    auto num_bits = parse_num(width);
+    if (!num_bits || *num_bits > std::numeric_limits<uint32_t>::max()) {
+        error_message_ = "Invalid width: " + width;
+        return false;
+    }
+    var_def.width = static_cast<uint32_t>(*num_bits);
     var_def.identifier = next_token(stream_);
     var_def.name = next_token(stream_);
 
@@ -233,7 +250,12 @@ bool VCDParser::parse_vcd_values() {  // NOLINT
         if (token.empty()) return true;
 
         if (token[0] == '#') {
-            timestamp = std::stoi(std::string(token.substr(1)));
+            auto time = parse_num(token.substr(1));
+            if (!time) {
+                error_message_ = "Invalid timestamp: " + token;
+                return false;
+            }
+            timestamp = *time;
             if (on_time_change_) (*on_time_change_)(timestamp);
         } else if (std::string("01xz").find(token[0]) != std::string::npos) {
             auto value = std::string(1, token[0]);
-- 
2.43.0


From 078b0628b9166262828bde522bd149fef46794f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:36 +0000
Subject: [PATCH 072/104] fix: read upper case values, reals and comments in
 VCD files

---
 tools/vcd/vcd.cc | 46 ++++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/tools/vcd/vcd.cc b/tools/vcd/vcd.cc
index e8a82b2..222c80d 100644
--- a/tools/vcd/vcd.cc
+++ b/tools/vcd/vcd.cc
@@ -244,6 +244,24 @@ bool VCDParser::parse_vcd_values() {  // NOLINT
         }
     };
 
+    auto parse_value = [this, &add_value](const std::string &token) {
+        auto type = static_cast<char>(std::tolower(token[0]));
+        // x and z are in either case
+        auto to_lower = [](std::string value) {
+            std::transform(value.begin(), value.end(), value.begin(), ::tolower);
+            return value;
+        };
+        if (std::string("01xz").find(type) != std::string::npos) {
+            add_value(token.substr(1), std::string(1, type), true);
+        } else if (type == 'b') {
+            auto ident = next_token(stream_);
+            add_value(ident, to_lower(token.substr(1)));
+        } else if (type == 'r') {
+            // real values are not supported. the identifier is not a value
+            next_token(stream_);
+        }
+    };
+
     while (true) {
         start_pos = tellg();
         auto token = next_token(stream_);
@@ -257,16 +275,11 @@ bool VCDParser::parse_vcd_values() {  // NOLINT
             }
             timestamp = *time;
             if (on_time_change_) (*on_time_change_)(timestamp);
-        } else if (std::string("01xz").find(token[0]) != std::string::npos) {
-            auto value = std::string(1, token[0]);
-            auto ident = std::string(token.substr(1));
-
-            add_value(ident, value, true);
-        } else if (std::string("b").find(token[0]) != std::string::npos) {
-            auto value = std::string(token.substr(1));
-            auto ident = std::string(next_token(stream_));
-
-            add_value(ident, value);
+        } else if (token == "$comment") {
+            // can be anywhere. its text has no values
+            while ((token = next_token(stream_)) != end_str) {
+                if (token.empty()) return check_end(token);
+            }
         } else if (token == "$dumpvars" || token == "$dumpall" || token == "$dumpon" ||
                    token == "$dumpoff") {
             if (on_dump_var_action_) (*on_dump_var_action_)(token);
@@ -275,18 +288,11 @@ bool VCDParser::parse_vcd_values() {  // NOLINT
                 if (token.empty()) return check_end(token);
                 if (token == "$end") {
                     break;
-                } else if (std::string("01xz").find(token[0]) != std::string::npos) {
-                    auto value = std::string(1, token[0]);
-                    auto ident = std::string(token.substr(1));
-
-                    add_value(ident, value, true);
-                } else if (std::string("b").find(token[0]) != std::string::npos) {
-                    auto value = std::string(token.substr(1));
-                    auto ident = std::string(next_token(stream_));
-
-                    add_value(ident, value);
                 }
+                parse_value(token);
             }
+        } else {
+            parse_value(token);
         }
     }
 }
-- 
2.43.0


From cb732cd6261ed911240a8ba970f66486967684d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:40 +0000
Subject: [PATCH 073/104] fix: read the settings before clients can connect

---
 src/debug.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index eb2ed4b..d2dbdaa 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -91,6 +91,10 @@ void Debugger::run() {
     // this is only used for benchmark!
     preload_db_from_env();
 
+    // once the server is running clients may change the namespaces
+    // rocket chip doesn't like plus args. Need to
+    bool disable_blocking = get_test_plus_arg(DISABLE_BLOCKING_ENV, true);
+
     auto on_ = [this](const std::string &msg, uint64_t conn_id) { on_message(msg, conn_id); };
     server_thread_ = std::thread([on_, this]() {
         server_->set_on_message(on_);
@@ -104,8 +108,6 @@ void Debugger::run() {
     //
     // by default we block the execution. but if user desires, e.g. during a benchmark
     // we can skip the blocking
-    // rocket chip doesn't like plus args. Need to
-    bool disable_blocking = get_test_plus_arg(DISABLE_BLOCKING_ENV, true);
     if (!disable_blocking) [[likely]] {
         lock_.wait();
     }
-- 
2.43.0


From 0fcdf7d873faf7db4e855f9566965e5947e36dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 074/104] fix: keep the trigger of breakpoints looked up by id
 in SQLite tables

---
 src/db.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db.cc b/src/db.cc
index 9475737..7731b31 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -94,7 +94,8 @@ std::optional<BreakPoint> DBSymbolTableProvider::get_breakpoint(uint32_t breakpo
                           .filename = ptr->filename,
                           .line_num = ptr->line_num,
                           .column_num = ptr->column_num,
-                          .condition = ptr->condition};
+                          .condition = ptr->condition,
+                          .trigger = ptr->trigger};
 
     } else {
         return std::nullopt;
-- 
2.43.0


From 3b5e0006bb9f9e1242d11ec04ee058ffdf48f96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:04 +0000
Subject: [PATCH 075/104] fix: find absolute files in SQLite tables that also
 have relative ones

---
 src/db.cc | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 7731b31..0566693 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -42,23 +42,28 @@ std::vector<BreakPoint> DBSymbolTableProvider::get_breakpoints(const std::string
                                                                uint32_t col_num) {
     using namespace sqlite_orm;
     std::vector<BreakPoint> bps;
-    auto resolved_filename = resolve_filename_to_db(filename);
+    // files may be stored with or without their directories
+    std::vector<std::string> filenames = {resolve_filename_to_db(filename)};
     if (use_base_name_) {
-        std::filesystem::path p = resolved_filename;
-        resolved_filename = p.filename();
+        std::string base_name = std::filesystem::path(filenames[0]).filename();
+        if (base_name != filenames[0]) filenames.emplace_back(base_name);
     }
     std::lock_guard guard(db_lock_);
-    if (col_num != 0) {
-        bps = db_->get_all<BreakPoint>(where(c(&BreakPoint::filename) == resolved_filename &&
-                                             c(&BreakPoint::line_num) == line_num &&
-                                             c(&BreakPoint::column_num) == col_num));
-    } else if (line_num != 0) {
-        // NOLINTNEXTLINE
-        bps = db_->get_all<BreakPoint>(where(c(&BreakPoint::filename) == resolved_filename &&
-                                             c(&BreakPoint::line_num) == line_num));
-    } else {
-        // NOLINTNEXTLINE
-        bps = db_->get_all<BreakPoint>(where(c(&BreakPoint::filename) == resolved_filename));
+    for (auto const &name : filenames) {
+        std::vector<BreakPoint> res;
+        if (col_num != 0) {
+            res = db_->get_all<BreakPoint>(where(c(&BreakPoint::filename) == name &&
+                                                 c(&BreakPoint::line_num) == line_num &&
+                                                 c(&BreakPoint::column_num) == col_num));
+        } else if (line_num != 0) {
+            // NOLINTNEXTLINE
+            res = db_->get_all<BreakPoint>(where(c(&BreakPoint::filename) == name &&
+                                                 c(&BreakPoint::line_num) == line_num));
+        } else {
+            // NOLINTNEXTLINE
+            res = db_->get_all<BreakPoint>(where(c(&BreakPoint::filename) == name));
+        }
+        std::move(res.begin(), res.end(), std::back_inserter(bps));
     }
 
     // need to change the breakpoint filename back to client
@@ -72,13 +77,8 @@ std::vector<BreakPoint> DBSymbolTableProvider::get_breakpoints(const std::string
 }
 
 std::vector<BreakPoint> DBSymbolTableProvider::get_breakpoints(const std::string &filename) {
-    auto resolved_filename = resolve_filename_to_db(filename);
-    if (use_base_name_) {  // NOLINT
-        std::filesystem::path p = resolved_filename;
-        resolved_filename = p.filename();
-    }
     // NOLINTNEXTLINE
-    return get_breakpoints(resolved_filename, 0, 0);
+    return get_breakpoints(filename, 0, 0);
 }
 
 std::optional<BreakPoint> DBSymbolTableProvider::get_breakpoint(uint32_t breakpoint_id) {
-- 
2.43.0


From 0d119f98f8806f49a461d01e44805ac0875d46ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:31 +0000
Subject: [PATCH 076/104] fix: report the files of SQLite tables with client
 paths

---
 src/db.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/db.cc b/src/db.cc
index 0566693..0ed60ea 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -227,6 +227,7 @@ std::vector<std::string> DBSymbolTableProvider::get_filenames() {
     using namespace sqlite_orm;
     std::lock_guard guard(db_lock_);
     auto names = db_->select(distinct(&BreakPoint::filename));  // NOLINT
+    for (auto &name : names) name = resolve_filename_to_client(name);
     return names;
 }
 
-- 
2.43.0


From 62a19c356c66c7848964d0d93bb4619515542d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:49 +0000
Subject: [PATCH 077/104] fix: prefix SQLite variables whose name contains the
 instance name

---
 src/db.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db.cc b/src/db.cc
index 0ed60ea..c95e9eb 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -141,7 +141,7 @@ std::optional<uint64_t> DBSymbolTableProvider::get_instance_id(uint64_t breakpoi
 
 std::string get_var_value(bool is_rtl, const std::string &value, const std::string &instance_name) {
     std::string fullname;
-    if (is_rtl && value.find(instance_name) == std::string::npos) {
+    if (is_rtl && !value.starts_with(instance_name + ".")) {
         fullname = fmt::format("{0}.{1}", instance_name, value);
     } else {
         fullname = value;
-- 
2.43.0


From 4ef55075630cfc1e9282be3ae613603bbbb2eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:06 +0000
Subject: [PATCH 078/104] fix: look at the scope and the variable of
 assignments in SQLite tables

---
 src/db.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index c95e9eb..64527e6 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -303,12 +303,15 @@ DBSymbolTableProvider::get_assigned_breakpoints(const std::string &var_name,  //
             // maybe the generator already taken care of it
             ref_assignment.name != var_name) {
             auto tokens = util::get_tokens(var_name, "[.");
-            target_var_name = {tokens[0]};
-            found = true;
-            member_access = true;
-            ref_assign = std::move(ref_assignment);
+            if (!tokens.empty() && tokens[0] == ref_assignment.name) {
+                target_var_name = {tokens[0]};
+                found = true;
+                member_access = true;
+                ref_assign = std::move(ref_assignment);
+            }
         } else if (ref_assignment.name == var_name) {
             found = true;
+            ref_assign = std::move(ref_assignment);
         }
     }
 
-- 
2.43.0


From 80ae22e20fe92086b9d97850b3cc8935ea9dc873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 079/104] fix: keep the argument vector of hgdb-replay valid
 when arguments are added

---
 tools/hgdb-replay/vpi.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/hgdb-replay/vpi.cc b/tools/hgdb-replay/vpi.cc
index a32d13e..d679d8b 100644
--- a/tools/hgdb-replay/vpi.cc
+++ b/tools/hgdb-replay/vpi.cc
@@ -412,7 +412,11 @@ void ReplayVPIProvider::set_argv(int argc, char **argv) {
 
 void ReplayVPIProvider::add_argv(const std::string &arg) {
     argv_str_.emplace_back(arg);
-    argv_.emplace_back(const_cast<char *>(argv_str_.back().c_str()));
+    // the strings may have been moved
+    argv_.clear();
+    for (auto const &str : argv_str_) {
+        argv_.emplace_back(const_cast<char *>(str.c_str()));
+    }
 }
 
 void ReplayVPIProvider::set_on_cb_added(const std::function<void(p_cb_data)> &on_cb_added) {
-- 
2.43.0


From 77bde9211ccc4a39cac15b23c7a0c8c2ea0679e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:26 +0000
Subject: [PATCH 080/104] fix: start looking for instances in a waveform at its
 top level

---
 tools/hgdb-replay/vcd_db.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/tools/hgdb-replay/vcd_db.cc b/tools/hgdb-replay/vcd_db.cc
index 63b5661..042f830 100644
--- a/tools/hgdb-replay/vcd_db.cc
+++ b/tools/hgdb-replay/vcd_db.cc
@@ -36,10 +36,20 @@ std::optional<uint64_t> VCDDatabase::get_instance_id(const std::string &full_nam
     using namespace sqlite_orm;
     // notice that SQLite doesn't support recursive query
     auto tokens = util::get_tokens(full_name, ".");
-    // find the top level first
+    if (tokens.empty()) return std::nullopt;
+    // find the top level first, i.e. the module of that name without any parent
     auto tops = vcd_table_->select(&VCDDBModule::id, where(c(&VCDDBModule::name) == tokens[0]));
-    if (tops.empty()) return std::nullopt;
-    auto parent_id = tops[0];
+    std::optional<uint64_t> top_id;
+    for (auto const id : tops) {
+        auto parents = vcd_table_->get_all<VCDDBModuleHierarchy>(
+            where(c(&VCDDBModuleHierarchy::child_id) == id));
+        if (parents.empty()) {
+            top_id = id;
+            break;
+        }
+    }
+    if (!top_id) return std::nullopt;
+    auto parent_id = *top_id;
     for (uint64_t i = 1; i < tokens.size(); i++) {
         auto child_name = tokens[i];
         auto ins = vcd_table_->select(
-- 
2.43.0


From e44aee869cf24e4e49632cc1b8201db8dcf3e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 081/104] fix: use the instance of a waveform signal for its
 full name

---
 tools/hgdb-replay/vcd_db.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tools/hgdb-replay/vcd_db.cc b/tools/hgdb-replay/vcd_db.cc
index 042f830..7ad5e4c 100644
--- a/tools/hgdb-replay/vcd_db.cc
+++ b/tools/hgdb-replay/vcd_db.cc
@@ -140,12 +140,9 @@ std::optional<std::string> VCDDatabase::get_signal_value(uint64_t id, uint64_t t
 
 std::string VCDDatabase::get_full_signal_name(uint64_t signal_id) {
     using namespace sqlite_orm;
-    auto ptr = get_signal(signal_id);
-    if (!ptr) return "";
-    std::string name = ptr->name;
-    uint64_t instance_id = ptr->id;
-    name = fmt::format("{0}.{1}", get_full_instance_name(instance_id), name);
-    return name;
+    auto ptr = vcd_table_->get_pointer<VCDDBSignal>(signal_id);
+    if (!ptr || !ptr->instance_id) return "";
+    return fmt::format("{0}.{1}", get_full_instance_name(*ptr->instance_id), ptr->name);
 }
 
 std::string VCDDatabase::get_full_instance_name(uint64_t instance_id) {
-- 
2.43.0


From b697c76158da96bd19f153d3f148501444ee6db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:11 +0000
Subject: [PATCH 082/104] fix: forget the names of released replay handles

---
 tools/hgdb-replay/vpi.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/hgdb-replay/vpi.cc b/tools/hgdb-replay/vpi.cc
index d679d8b..470b215 100644
--- a/tools/hgdb-replay/vpi.cc
+++ b/tools/hgdb-replay/vpi.cc
@@ -356,6 +356,13 @@ PLI_INT32 ReplayVPIProvider::vpi_release_handle(vpiHandle object) {
     if (scan_map_.find(object) != scan_map_.end()) {
         scan_map_.erase(object);
     }
+    // the name has to get a new handle next time
+    for (auto it = handle_mapping_.begin(); it != handle_mapping_.end(); it++) {
+        if (it->second == object) {
+            handle_mapping_.erase(it);
+            break;
+        }
+    }
     return 1;
 }
 
-- 
2.43.0


From 09103c262a24813eb93c7b59d236c940755f1645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:45 +0000
Subject: [PATCH 083/104] fix: record the values of every variable that shares
 an identifier

---
 tools/hgdb-replay/vcd_db.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/hgdb-replay/vcd_db.cc b/tools/hgdb-replay/vcd_db.cc
index 7ad5e4c..a5cd205 100644
--- a/tools/hgdb-replay/vcd_db.cc
+++ b/tools/hgdb-replay/vcd_db.cc
@@ -259,7 +259,8 @@ std::pair<std::string, std::string> VCDDatabase::compute_instance_mapping(
 void VCDDatabase::parse_vcd(const std::string &filename) {
     std::stack<uint64_t> scope;
     std::unordered_map<uint64_t, std::string> scope_name;
-    std::unordered_map<std::string, uint64_t> var_mapping;
+    // variables that are the same net share an identifier
+    std::unordered_map<std::string, std::vector<uint64_t>> var_mapping;
     uint64_t module_id_count = 0;
     uint64_t var_id_count = 0;
 
@@ -288,14 +289,17 @@ void VCDDatabase::parse_vcd(const std::string &filename) {
 
     parser.set_on_var_def([&, this](const VCDVarDef &var) {
         auto module_id = scope.top();
-        var_mapping.emplace(var.identifier, var_id_count);
+        var_mapping[var.identifier].emplace_back(var_id_count);
         store_signal(var.name, var_id_count, module_id, var.width);
         var_id_count++;
     });
 
     parser.set_value_change([this, &var_mapping](const VCDValue &value) {
-        auto var_id = var_mapping.at(value.identifier);
-        store_value(var_id, value.time, value.value);
+        auto it = var_mapping.find(value.identifier);
+        if (it == var_mapping.end()) return;
+        for (auto const var_id : it->second) {
+            store_value(var_id, value.time, value.value);
+        }
     });
 
     if (!parser.parse()) {
-- 
2.43.0


From c3c99c975fcf9ca6213a5eeef685149584f3be6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 084/104] fix: convert waveform values wider than 31 bits

---
 tools/hgdb-replay/vpi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/hgdb-replay/vpi.cc b/tools/hgdb-replay/vpi.cc
index 470b215..66f2a25 100644
--- a/tools/hgdb-replay/vpi.cc
+++ b/tools/hgdb-replay/vpi.cc
@@ -20,7 +20,7 @@ int64_t convert_value(const std::string &raw_value) {
         auto bit = bits - i - 1;
         char v = raw_value[i];
         if (v == '1') {
-            result |= 1 << bit;
+            if (bit < 64) result |= static_cast<int64_t>(1ull << bit);
         } else if (v == 'z' || v == 'x') {
             // invalid value we display 0, which is consistent with Verilator
             return 0;
-- 
2.43.0


From 3f95fe0f7dccbcc09975db3cf6e2f2900c93658f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:21 +0000
Subject: [PATCH 085/104] fix: iterate all the signals of an instance in
 hgdb-replay

---
 tools/hgdb-replay/vpi.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/hgdb-replay/vpi.cc b/tools/hgdb-replay/vpi.cc
index 66f2a25..b12b065 100644
--- a/tools/hgdb-replay/vpi.cc
+++ b/tools/hgdb-replay/vpi.cc
@@ -257,9 +257,12 @@ vpiHandle ReplayVPIProvider::vpi_iterate(PLI_INT32 type, vpiHandle refHandle) {
             // for each signal return a scan handle
             for (auto const &signal : signals) {
                 auto *handle = get_signal_handle(signal.id);
-                if (handle) {
-                    handles.emplace_back(handle);
+                if (!handle) {
+                    // may not be created yet
+                    handle = get_new_handle();
+                    signal_id_map_.emplace(handle, signal.id);
                 }
+                handles.emplace_back(handle);
             }
         }
     } else if (type == vpiModule) {
-- 
2.43.0


From 96bd1f3df615f549a66cb3c09fe37ddb28c67bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:02 +0000
Subject: [PATCH 086/104] fix: give array elements of a waveform a size and a
 value in any case

---
 tools/hgdb-replay/vpi.cc | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/tools/hgdb-replay/vpi.cc b/tools/hgdb-replay/vpi.cc
index b12b065..4b1d13d 100644
--- a/tools/hgdb-replay/vpi.cc
+++ b/tools/hgdb-replay/vpi.cc
@@ -70,6 +70,13 @@ std::string convert_str_value(const std::string &raw_value) {
     return result;
 }
 
+// values may be stored without the leading digits that follow from the first one
+std::string extend_value(const std::string &raw_value, uint64_t width) {
+    if (raw_value.empty() || raw_value.size() >= width) return raw_value;
+    auto const digit = raw_value[0] == '1' ? '0' : raw_value[0];
+    return std::string(width - raw_value.size(), digit) + raw_value;
+}
+
 template <class T>
 void set_value(p_vpi_value value_p, T value, std::string &str_buffer) {
     if constexpr (std::is_same<T, std::string>::value) {
@@ -118,11 +125,12 @@ void ReplayVPIProvider::vpi_get_value(vpiHandle expr, p_vpi_value value_p) {
             set_value(value_p, 0, str_buffer_);
         }
     } else if (array_info_.find(expr) != array_info_.end()) {
-        // if there is any error, we return
-        value_p->value.integer = 0;
-        value_p->value.str = nullptr;
+        // if there is any error, or no value yet, 0 is returned
         auto info = get_array_info(expr);
-        if (!info) return;
+        if (!info || info->hi > info->raw_value.size()) {
+            set_value(value_p, 0, str_buffer_);
+            return;
+        }
         auto hi = info->hi;
         auto lo = info->lo;
         auto width = hi - lo;
@@ -606,8 +614,8 @@ std::optional<ReplayVPIProvider::PackedArrayInfo> ReplayVPIProvider::get_array_i
     auto const &[parent_handle, slice_info] = array_info_.at(expr);
     if (signal_id_map_.find(parent_handle) != signal_id_map_.end()) {
         auto raw_value = db_->get_signal_value(signal_id_map_.at(parent_handle), current_time_);
-        if (!raw_value) return std::nullopt;
         auto signal = db_->get_signal(signal_id_map_.at(parent_handle));
+        if (!signal) return std::nullopt;
         auto array_size = array_map_.at(parent_handle).size();
         auto slice_size = signal->width / array_size;
         uint32_t lo = slice_size * slice_info[0];
@@ -624,13 +632,10 @@ std::optional<ReplayVPIProvider::PackedArrayInfo> ReplayVPIProvider::get_array_i
             lo = lo + slice_size * i;
             hi = lo + slice_size;
         }
-        // need to slice out the raw value
-        if (lo >= raw_value->size()) {
-            return std::nullopt;
-        }
-        // need to slice out the raw_value
-        hi = std::min<uint64_t>(hi, raw_value->size());
-        return ReplayVPIProvider::PackedArrayInfo{.lo = lo, .hi = hi, .raw_value = *raw_value};
+        return ReplayVPIProvider::PackedArrayInfo{
+            .lo = lo,
+            .hi = hi,
+            .raw_value = raw_value ? extend_value(*raw_value, signal->width) : std::string()};
     }
     return std::nullopt;
 }
-- 
2.43.0


From ffdf2fa477d363f4f975897d7b6dca2a393159f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:57 +0000
Subject: [PATCH 087/104] fix: fire only the clocks that change in hgdb-replay

---
 tools/hgdb-replay/engine.cc | 32 ++++++++++++++++++++------------
 tools/hgdb-replay/engine.hh |  4 +++-
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/tools/hgdb-replay/engine.cc b/tools/hgdb-replay/engine.cc
index 1ebeb9c..88e7973 100644
--- a/tools/hgdb-replay/engine.cc
+++ b/tools/hgdb-replay/engine.cc
@@ -43,7 +43,7 @@ void EmulationEngine::finish() {
 void EmulationEngine::on_cb_added(p_cb_data cb_data) {
     auto* handle = cb_data->obj;
     if (vpi_->is_valid_handle(handle)) {
-        watched_values_.emplace(std::make_pair(handle, std::nullopt));
+        watched_values_.emplace(handle);
     }
 }
 
@@ -84,16 +84,12 @@ void EmulationEngine::emulation_loop() {
         std::sort(times.begin(), times.end());
         // only need the first signal
         auto time = times[0];
-        // change time to the place where value changes happens
-        change_time(time);
-        // retrieve all the watched values and compare their value change
+        // retrieve all the watched values and compare them with what they were right before
+        auto const previous_values = get_watched_values(time - 1);
+        auto const current_values = get_watched_values(time);
         std::unordered_map<vpiHandle, int64_t> changed_values;
-        for (auto const& [handle, pre_value] : watched_values_) {
-            s_vpi_value value_p;
-            value_p.format = vpiIntVal;
-            vpi_->vpi_get_value(handle, &value_p);
-            auto current_value = value_p.value.integer;
-            if (!pre_value || (pre_value && (*pre_value != current_value))) {
+        for (auto const& [handle, current_value] : current_values) {
+            if (previous_values.at(handle) != current_value) {
                 // this is a value change
                 changed_values.emplace(handle, current_value);
             }
@@ -137,6 +133,18 @@ void EmulationEngine::emulation_loop() {
     }
 }
 
+std::unordered_map<vpiHandle, int64_t> EmulationEngine::get_watched_values(uint64_t time) {
+    change_time(time);
+    std::unordered_map<vpiHandle, int64_t> result;
+    for (auto* handle : watched_values_) {
+        s_vpi_value value_p;
+        value_p.format = vpiIntVal;
+        vpi_->vpi_get_value(handle, &value_p);
+        result.emplace(handle, value_p.value.integer);
+    }
+    return result;
+}
+
 void EmulationEngine::change_time(uint64_t time) {
     timestamp_ = time;
     vpi_->set_timestamp(time);
@@ -145,8 +153,8 @@ void EmulationEngine::change_time(uint64_t time) {
 std::vector<uint64_t> EmulationEngine::get_next_changed_times() {
     std::vector<uint64_t> times;
     times.reserve(watched_values_.size());
-    for (auto const& iter : watched_values_) {
-        auto signal_id = vpi_->get_signal_id(iter.first);
+    for (auto* handle : watched_values_) {
+        auto signal_id = vpi_->get_signal_id(handle);
         if (signal_id) {
             auto time = vpi_->db().get_next_value_change_time(*signal_id, timestamp_);
             if (time) {
diff --git a/tools/hgdb-replay/engine.hh b/tools/hgdb-replay/engine.hh
index ce5a270..eaaa876 100644
--- a/tools/hgdb-replay/engine.hh
+++ b/tools/hgdb-replay/engine.hh
@@ -2,6 +2,7 @@
 #define HGDB_TOOL_ENGINE_HH
 
 #include <atomic>
+#include <set>
 #include <thread>
 
 #include "vpi.hh"
@@ -19,7 +20,7 @@ public:
 private:
     ReplayVPIProvider* vpi_;
     std::atomic<uint64_t> timestamp_ = 0;
-    std::map<vpiHandle, std::optional<int64_t>> watched_values_;
+    std::set<vpiHandle> watched_values_;
 
     // use for non-blocking conditions
     // normally it's for testing
@@ -33,6 +34,7 @@ private:
     // emulation logic
     void emulation_loop();
     void change_time(uint64_t time);
+    std::unordered_map<vpiHandle, int64_t> get_watched_values(uint64_t time);
 
     // helper functions
     std::vector<uint64_t> get_next_changed_times();
-- 
2.43.0


From b4ae9254e0b896430c31b68ce785bcd2ef214751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 088/104] fix: look at the clock changes one time unit after
 another

---
 tools/hgdb-replay/engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/hgdb-replay/engine.cc b/tools/hgdb-replay/engine.cc
index 88e7973..88a533e 100644
--- a/tools/hgdb-replay/engine.cc
+++ b/tools/hgdb-replay/engine.cc
@@ -125,7 +125,7 @@ void EmulationEngine::emulation_loop() {
         // requests when the simulator is running. only when the simulator is paused is
         // the request well-defined. in this case, inside the trigger_cb call
         if (timestamp_.load() == (time - 1)) {
-            change_time(time + 1);
+            change_time(time);
         } else {
             // advance the timestamp a little to align the proper clock period
             timestamp_.fetch_add(1);
-- 
2.43.0


From 227c7c347558f1bdf64398e1968737399849c5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 089/104] fix: only go back to rising edges in hgdb-replay

---
 tools/hgdb-replay/engine.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/hgdb-replay/engine.cc b/tools/hgdb-replay/engine.cc
index 88a533e..cdd3c81 100644
--- a/tools/hgdb-replay/engine.cc
+++ b/tools/hgdb-replay/engine.cc
@@ -62,7 +62,11 @@ bool EmulationEngine::on_rewound(hgdb::AVPIProvider::rewind_data* rewind_data) {
         auto signal = vpi_->get_signal_id(handle);
         if (signal) {
             auto time = vpi_->db().get_prev_value_change_time(*signal, max_time, "1");
-            if (time) {
+            // only where it rises: the same value may be given again, and nothing comes before 0
+            while (time && *time > 0 && vpi_->db().get_signal_value(*signal, *time - 1) == "1") {
+                time = vpi_->db().get_prev_value_change_time(*signal, *time, "1");
+            }
+            if (time && *time > 0) {
                 times.emplace_back(*time);
             }
         }
-- 
2.43.0


From 64baf29bde4278ee6ee33126a8f8f8920943596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:55 +0000
Subject: [PATCH 090/104] fix: show a failing assertion in the instance that
 has it, in execution order

---
 src/debug.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index d2dbdaa..2aac011 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -207,22 +207,25 @@ void Debugger::handle_assert() {
         log_error("Incorrect usage of hgdb assertion");
         return;
     }
-    auto *ns = namespaces_.look_up(assert_info->full_name);
-    if (!ns) {
-        log_error("Invalid assertion call site");
-        return;
-    }
     auto breakpoints =
         db_->get_breakpoints(assert_info->filename, assert_info->line, assert_info->column);
     if (breakpoints.empty()) {
         log_error("Unable to find corresponding breakpoint for assertion");
         return;
     }
-    // should be only one
-    auto &bp = breakpoints[0];
-    bp.condition.clear();
-    // need to insert it into the scheduler
-    scheduler_->add_assert_breakpoint(ns, bp);
+    // the location may be in several instances, find the one that has the call
+    for (auto &bp : breakpoints) {
+        auto instance_name = db_->get_instance_name_from_bp(bp.id);
+        for (auto *ns : namespaces_.get_namespaces(instance_name)) {
+            if (ns->rtl->get_full_name(*instance_name) != assert_info->full_name) continue;
+            bp.condition.clear();
+            // need to insert it into the scheduler
+            scheduler_->add_assert_breakpoint(ns, bp);
+            scheduler_->reorder_breakpoints();
+            return;
+        }
+    }
+    log_error("Invalid assertion call site");
 }
 
 void Debugger::set_option(const std::string &name, bool value) {
-- 
2.43.0


From 7bd0c50be201c09769a31d7e163d594c4c5f469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:09 +0000
Subject: [PATCH 091/104] fix: step over everything inserted at the current
 breakpoint

---
 src/scheduler.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 7b684ec..e703aea 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -62,6 +62,8 @@ std::vector<DebugBreakPoint *> Scheduler::next_step_over_breakpoints() {
     uint64_t index = 0;
     if (current_breakpoint_id_) [[likely]] {
         index = get_order(*current_breakpoint_id_) + 1;
+        // what is left of the current one is stepped over as well
+        mark_evaluated(true);
     }
     // breakpoints whose instance is not part of the design are skipped
     for (; index < bp_ordering_.size(); index++) {
-- 
2.43.0


From bf7b0ac3fcc1679b4b09fb950b0013ef131d23c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:30 +0000
Subject: [PATCH 092/104] fix: say in the status whether the simulation is
 paused

---
 src/debug.cc | 24 +++++++++++++++++-------
 src/debug.hh |  3 +++
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 2aac011..fbfe932 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -95,6 +95,8 @@ void Debugger::run() {
     // rocket chip doesn't like plus args. Need to
     bool disable_blocking = get_test_plus_arg(DISABLE_BLOCKING_ENV, true);
 
+    is_paused_ = !disable_blocking;
+
     auto on_ = [this](const std::string &msg, uint64_t conn_id) { on_message(msg, conn_id); };
     server_thread_ = std::thread([on_, this]() {
         server_->set_on_message(on_);
@@ -110,6 +112,7 @@ void Debugger::run() {
     // we can skip the blocking
     if (!disable_blocking) [[likely]] {
         lock_.wait();
+        is_paused_ = false;
     }
 }
 
@@ -123,11 +126,18 @@ void Debugger::stop() {
 }
 
 void Debugger::pause(std::unique_lock<std::recursive_mutex> &state) {
+    is_paused_ = true;
     state.unlock();
     lock_.wait();
+    is_paused_ = false;
     state.lock();
 }
 
+void Debugger::resume() {
+    is_paused_ = false;
+    lock_.ready();
+}
+
 void Debugger::eval() {
     // requests go first. otherwise a busy simulation may lock them out
     while (pending_requests_.load() > 0) std::this_thread::yield();
@@ -270,7 +280,7 @@ void Debugger::detach() {
 
     if (is_running_.load()) {
         is_running_ = false;
-        lock_.ready();
+        resume();
     }
 
     log_info("Debugger runtime detached since all clients have disconnected");
@@ -695,7 +705,7 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
         case CommandRequest::CommandType::continue_: {
             log_info("handle_command: continue_");
             set_evaluation_mode(Scheduler::EvaluationMode::BreakPointOnly);
-            lock_.ready();
+            resume();
             break;
         }
         case CommandRequest::CommandType::stop: {
@@ -712,20 +722,20 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
             log_info("handle_command: step_over");
             // change the mode into step through
             set_evaluation_mode(Scheduler::EvaluationMode::StepOver);
-            lock_.ready();
+            resume();
             break;
         }
         case CommandRequest::CommandType::reverse_continue: {
             log_info("handle_command: reverse_continue");
             set_evaluation_mode(Scheduler::EvaluationMode::ReverseBreakpointOnly);
-            lock_.ready();
+            resume();
             break;
         }
         case CommandRequest::CommandType::step_back: {
             log_info("handle_command: step_back");
             // change the mode into step back
             set_evaluation_mode(Scheduler::EvaluationMode::StepBack);
-            lock_.ready();
+            resume();
             break;
         }
         case CommandRequest::CommandType::jump: {
@@ -738,7 +748,7 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
                 error = "Underlying RTL simulator does not support rewind";
                 log_error(error);
             }
-            lock_.ready();
+            resume();
             break;
         }
     }
@@ -784,7 +794,7 @@ void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t
             ss << "Command line arguments: ";
             auto const &argv = rtl->get_argv();
             ss << util::join(argv.begin(), argv.end(), " ") << std::endl;
-            ss << "Simulation paused: " << (is_running_.load() ? "true" : "false") << std::endl;
+            ss << "Simulation paused: " << (is_paused_.load() ? "true" : "false") << std::endl;
             auto resp = DebuggerInformationResponse(ss.str());
             req.set_token(resp);
             send_message(resp.str(log_enabled_), conn_id);
diff --git a/src/debug.hh b/src/debug.hh
index a6c1cee..0f2ccd4 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -66,6 +66,8 @@ private:
     // runtime lock
     RuntimeLock lock_;
     std::atomic<bool> is_running_ = false;
+    // whether the simulation waits for a command
+    std::atomic<bool> is_paused_ = false;
     // requests are served in the server thread and breakpoints are evaluated in the simulator's
     // one. both work on the state below under this lock, which is given up while paused
     std::recursive_mutex state_lock_;
@@ -107,6 +109,7 @@ private:
 
     void detach();
     void pause(std::unique_lock<std::recursive_mutex> &state);
+    void resume();
 
     // message handler
     void on_message(const std::string &message, uint64_t conn_id);
-- 
2.43.0


From 2e9170fbc4084a80db787e5801ff615b24102f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 093/104] fix: evaluate the clock edge a jump goes to from its
 beginning

---
 src/debug.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index fbfe932..b7588ae 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -743,7 +743,10 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
             if (!check_send_db_error(req, conn_id)) return;
             auto res = namespaces_.default_rtl()->rewind(req.time(), scheduler_->clock_handles());
             clear_signal_cache();
-            if (!res) {
+            if (res) {
+                // the clock edge it goes to is evaluated from its beginning
+                scheduler_->start_breakpoint_evaluation();
+            } else {
                 status = status_code::error;
                 error = "Underlying RTL simulator does not support rewind";
                 log_error(error);
-- 
2.43.0


From 46ae38f1f592a04c2de48890475e5acda99f0a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 094/104] fix: let the Python client wait for the answer to its
 own request

---
 bindings/python/hgdb/client.py | 42 ++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/bindings/python/hgdb/client.py b/bindings/python/hgdb/client.py
index f672028..8e73dc8 100644
--- a/bindings/python/hgdb/client.py
+++ b/bindings/python/hgdb/client.py
@@ -24,34 +24,42 @@ class HGDBClient:
         self.ws = None
         self.src_mapping = src_mapping
         self.token_count = 0
-        self._bps = []
+        # messages received while waiting for something else
+        self._messages = []
         self.debug = debug
 
-    async def recv(self, timeout=0):
+    async def __recv_message(self, timeout=0):
         try:
             if timeout == 0:
-                res = json.loads(await self.ws.recv())
+                return json.loads(await self.ws.recv())
             else:
-                res = json.loads(await asyncio.wait_for(self.ws.recv(), timeout))
-            if res["type"] == "breakpoint":
-                self._bps.append(res)
-            return res
+                return json.loads(await asyncio.wait_for(self.ws.recv(), timeout))
         except (asyncio.exceptions.IncompleteReadError, websockets.exceptions.ConnectionClosedError,
                 asyncio.exceptions.TimeoutError):
             return None
 
+    async def __recv_until(self, condition, timeout=0):
+        # keeps everything else for whoever asks for it
+        while True:
+            res = await self.__recv_message(timeout)
+            if res is None or condition(res):
+                return res
+            self._messages.append(res)
+
+    async def recv(self, timeout=0):
+        if self._messages:
+            return self._messages.pop(0)
+        return await self.__recv_message(timeout)
+
     async def recv_bp(self, timeout=0):
-        while len(self._bps) == 0:
-            res = await self.recv(timeout)
-            if res is None and len(self._bps) == 0:
-                return None
-        bp = self._bps[0]
-        self._bps = self._bps[1:]
-        return bp
+        for i, msg in enumerate(self._messages):
+            if msg["type"] == "breakpoint":
+                return self._messages.pop(i)
+        return await self.__recv_until(lambda msg: msg["type"] == "breakpoint", timeout)
 
     async def send(self, payload):
         # we set our own token
-        if "token" not in payload:
+        if not payload.get("token"):
             payload["token"] = "python-{0}".format(self.token_count)
             self.token_count += 1
         await self.ws.send(json.dumps(payload))
@@ -82,7 +90,7 @@ class HGDBClient:
 
     async def __send_check(self, payload, check_error=False):
         await self.send(payload)
-        res = await self.recv()
+        res = await self.__recv_until(lambda msg: msg.get("token") == payload["token"])
         if check_error:
             self.__check_status(res)
         return res
@@ -165,7 +173,7 @@ class HGDBClient:
         payload["payload"].update(**kwargs)
         await self.send(payload)
         # in case the downstream is interested about the response
-        return await self.recv(timeout=timeout)
+        return await self.__recv_until(lambda msg: msg.get("token") == payload["token"], timeout)
 
     async def get_info(self, status_command="breakpoints", check_error=True):
         payload = {"request": True, "type": "debugger-info", "payload": {"command": status_command}}
-- 
2.43.0


From 0e27a7a4c675009e586af5264641840fbbd8173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 095/104] fix: let the Python client monitor a variable of a
 breakpoint's scope

---
 bindings/python/hgdb/client.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bindings/python/hgdb/client.py b/bindings/python/hgdb/client.py
index 8e73dc8..f6b45b7 100644
--- a/bindings/python/hgdb/client.py
+++ b/bindings/python/hgdb/client.py
@@ -221,7 +221,6 @@ class HGDBClient:
         return await self.__send_check(payload, check_error=check_error)
 
     async def add_monitor(self, name, instance_id=None, breakpoint_id=None, monitor_type="breakpoint"):
-        assert (instance_id is not None) or (breakpoint_id is None)
         assert monitor_type in {"breakpoint", "clock_edge"}
         payload = {"request": True, "type": "monitor",
                    "payload": {"action_type": "add", "monitor_type": monitor_type, "var_name": name}}
-- 
2.43.0


From d8936995896f3ac763ad291187f389f75d0891ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 096/104] fix: answer the debugger's request for the execution
 order in the Python provider

---
 bindings/python/hgdb/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/hgdb/symbol.py b/bindings/python/hgdb/symbol.py
index 95dd6e8..b0f1e71 100644
--- a/bindings/python/hgdb/symbol.py
+++ b/bindings/python/hgdb/symbol.py
@@ -71,7 +71,7 @@ class SymbolTableProvider:
                 resp = self.get_annotation_values(payload["name"])
             elif req_type == "get_all_array_names":
                 resp = self.get_all_array_names()
-            elif req_type == "execution_bp_orders":
+            elif req_type == "get_execution_bp_orders":
                 resp = self.execution_bp_orders()
 
             await self.__send_resp(websocket, resp)
-- 
2.43.0


From 8c7dc635abe8e54adfa34d1c6aeedc13f7af84de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:20 +0000
Subject: [PATCH 097/104] fix: refuse to connect to a symbol table that cannot
 be used

---
 src/debug.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index b7588ae..3d56602 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -41,7 +41,10 @@ Debugger::Debugger(std::shared_ptr<AVPIProvider> vpi) {
 
 bool Debugger::initialize_db(const std::string &filename) {
     log_info(fmt::format("Debug database set to {0}", filename));
-    initialize_db(create_symbol_table(filename));
+    auto db = create_symbol_table(filename);
+    // a table that cannot be used is no table
+    if (db && db->bad()) db = nullptr;
+    initialize_db(std::move(db));
     return db_ != nullptr;
 }
 
-- 
2.43.0


From db82a384b5a0846f0a76c1c9302ed6621f231703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:23 +0000
Subject: [PATCH 098/104] fix: write the columns of statements where the JSON
 symbol table has them

---
 bindings/python/hgdb/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/hgdb/db.py b/bindings/python/hgdb/db.py
index 48dcaa5..337d49a 100644
--- a/bindings/python/hgdb/db.py
+++ b/bindings/python/hgdb/db.py
@@ -101,7 +101,7 @@ class Scope:
     def to_dict(self):
         res = {"type": self.type(), "line": self.line}
         if self.col > 0:
-            res["col"] = self.col
+            res["column"] = self.col
         scopes = []
         for scope in self.__children:
             assert scope.type() != "module"
-- 
2.43.0


From af27b177a389dd26b9062287a5746a8b5280f4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:26 +0000
Subject: [PATCH 099/104] fix: write the index ranges of variables where the
 JSON symbol table has them

---
 bindings/python/hgdb/db.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/python/hgdb/db.py b/bindings/python/hgdb/db.py
index 337d49a..8adc144 100644
--- a/bindings/python/hgdb/db.py
+++ b/bindings/python/hgdb/db.py
@@ -145,9 +145,6 @@ class Variable:
 
     def to_dict(self):
         res = {"name": self.name, "value": self.value, "rtl": self.rtl}
-        if self.indices:
-            indices = [v.to_dict() for v in self.indices]
-            res["indices"] = indices
         if self.type != VariableType.normal:
             res["type"] = self.type.value
         return res
@@ -164,6 +161,9 @@ class VarAssign(Scope):
     def to_dict(self):
         res = super(VarAssign, self).to_dict()
         res["variable"] = self.var.to_dict()
+        # the index information belongs to the entry
+        if self.var.indices:
+            res["indices"] = [v.to_dict() for v in self.var.indices]
         return res
 
 
-- 
2.43.0


From c31f736fb91438c37f01b6507d3fe5636cdda3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:44 +0000
Subject: [PATCH 100/104] fix: keep the debugger's own watches when a client
 removes a monitor

---
 src/debug.cc   | 3 ++-
 src/monitor.cc | 6 ++++++
 src/monitor.hh | 2 ++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index 3d56602..f4f48d2 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1005,7 +1005,8 @@ void Debugger::handle_monitor(const MonitorRequest &req, uint64_t conn_id) {
         } else {
             // it's remove
             auto track_id = req.track_id();
-            monitor.remove_monitor_variable(track_id);
+            // the debugger's own watches are not for the clients to remove
+            if (!monitor.is_internal(track_id)) monitor.remove_monitor_variable(track_id);
 
             // remove topics
             auto topic = get_monitor_topic(track_id);
diff --git a/src/monitor.cc b/src/monitor.cc
index 7ef35bd..0deed60 100644
--- a/src/monitor.cc
+++ b/src/monitor.cc
@@ -53,6 +53,12 @@ void Monitor::remove_monitor_variables(WatchType watch_type) {
     }
 }
 
+bool Monitor::is_internal(uint64_t watch_id) const {
+    auto pos = watched_variables_.find(watch_id);
+    return pos != watched_variables_.end() && (pos->second->type == WatchType::data ||
+                                               pos->second->type == WatchType::delay_clock_edge);
+}
+
 void Monitor::set_monitor_variable_condition(uint64_t id, std::function<bool()> cond) {
     if (watched_variables_.find(id) != watched_variables_.end()) [[likely]] {
         watched_variables_.at(id)->enable_cond = std::move(cond);
diff --git a/src/monitor.hh b/src/monitor.hh
index 393af3b..ad4542a 100644
--- a/src/monitor.hh
+++ b/src/monitor.hh
@@ -25,6 +25,8 @@ public:
                                   std::optional<int64_t> v);
     void remove_monitor_variable(uint64_t watch_id);
     void remove_monitor_variables(WatchType watch_type);
+    // whether the debugger itself watches this variable, for breakpoints and delayed variables
+    [[nodiscard]] bool is_internal(uint64_t watch_id) const;
     [[nodiscard]] std::optional<uint64_t> is_monitored(vpiHandle handle,
                                                        WatchType watch_type) const;
     void set_monitor_variable_condition(uint64_t id, std::function<bool()> cond);
-- 
2.43.0


From 7d2fb861f16ea97739363182d84d43f3c41e68ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:51 +0000
Subject: [PATCH 101/104] fix: report that hgdb-rewrite-vcd cannot find the
 design in the waveform

---
 tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
index 868b5f3..2c19483 100644
--- a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
+++ b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
@@ -81,10 +81,12 @@ public:
 
     bool convert() {
         if (parser_.has_error()) return false;
-        return parser_.parse();
+        return parser_.parse() && error_message_.empty();
     }
 
-    [[nodiscard]] const std::string &error_msg() const { return parser_.error_message(); }
+    [[nodiscard]] const std::string &error_msg() const {
+        return error_message_.empty() ? parser_.error_message() : error_message_;
+    }
 
 private:
     hgdb::vcd::VCDParser parser_;
@@ -111,7 +113,7 @@ private:
     std::stack<Scope *> scopes_stack_;
     Scope *root_ = nullptr;
     Scope *design_root_ = nullptr;
-    bool has_error = false;
+    std::string error_message_;
 
     constexpr static auto indent_ = "  ";
     constexpr static auto end_ = "$end";
@@ -165,8 +167,7 @@ private:
                 candidates = temp;
             }
             if (candidates.size() != 1) {
-                std::cerr << "Unable to map design hierarchy to test bench." << std::endl;
-                has_error = true;
+                error_message_ = "Unable to map design hierarchy to test bench";
                 return;
             }
             design_root_ = candidates[0];
@@ -178,7 +179,7 @@ private:
 
     void remap_definition() {
         using namespace sqlite_orm;
-        if (has_error || !design_root_) return;
+        if (!error_message_.empty() || !design_root_) return;
         // get all the instances and variable name
         auto vars = db_->select(
             columns(&hgdb::Instance::name, &hgdb::Variable::value, &hgdb::GeneratorVariable::name),
@@ -313,7 +314,7 @@ private:
     void serialize(uint64_t timestamp) { stream_ << '#' << timestamp << std::endl; }
 
     void serialize(const hgdb::vcd::VCDValue &info) {
-        if (has_error) return;
+        if (!error_message_.empty()) return;
         // we directly dump it since we only modify the value definition
         if (!info.is_event) {
             stream_ << 'b';
-- 
2.43.0


From 178bcbce9219417c9c828ce2090baf3a324a6fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:51 +0000
Subject: [PATCH 102/104] fix: rewrite waveforms with several or single top
 scopes

---
 tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc | 32 ++++++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
index 2c19483..d8f7558 100644
--- a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
+++ b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
@@ -60,7 +60,13 @@ public:
 
         parser_.set_on_var_def([this](const hgdb::vcd::VCDVarDef &def) { on_var_def(def); });
 
-        parser_.set_exit_scope([this]() { scopes_stack_.pop(); });
+        parser_.set_exit_scope([this]() {
+            if (scopes_stack_.empty()) {
+                error_message_ = "Illegal VCD file: no scope to leave";
+                return;
+            }
+            scopes_stack_.pop();
+        });
 
         parser_.set_value_change([this](const hgdb::vcd::VCDValue &value) { serialize(value); });
 
@@ -69,7 +75,7 @@ public:
         parser_.set_on_definition_finished([this]() {
             compute_design_root();
             remap_definition();
-            serialize(root_);
+            for (auto const *root : roots_) serialize(root);
 
             // the end of definition
             stream_ << "$enddefinitions " << end_ << std::endl;
@@ -111,7 +117,7 @@ private:
     std::vector<std::unique_ptr<hgdb::vcd::VCDVarDef>> vars_;
     std::unordered_set<std::string> identifiers_;
     std::stack<Scope *> scopes_stack_;
-    Scope *root_ = nullptr;
+    std::vector<Scope *> roots_;
     Scope *design_root_ = nullptr;
     std::string error_message_;
 
@@ -121,8 +127,8 @@ private:
     void on_scope_def(const hgdb::vcd::VCDScopeDef &def) {
         auto scope = std::make_unique<Scope>();
         scope->def = def;
-        if (!root_) {
-            root_ = scope.get();
+        if (scopes_stack_.empty()) {
+            roots_.emplace_back(scope.get());
         } else {
             auto *parent = scopes_stack_.top();
             parent->add_child(scope.get());
@@ -132,6 +138,10 @@ private:
     }
 
     void on_var_def(const hgdb::vcd::VCDVarDef &def) {
+        if (scopes_stack_.empty()) {
+            error_message_ = "Illegal VCD file: variable outside of any scope";
+            return;
+        }
         auto var = std::make_unique<hgdb::vcd::VCDVarDef>(def);
         identifiers_.emplace(var->identifier);
         // put it to the parent
@@ -147,11 +157,15 @@ private:
         // special case where the design is flat
         if (tokens.size() == 1) {
             // choose whatever one that has the highest
-            auto *target_scope = root_->scopes[0];
-            for (auto *scope : root_->scopes) {
-                if (scope->vars.size() > target_scope->vars.size()) target_scope = scope;
+            Scope *target_scope = nullptr;
+            for (auto *root : roots_) {
+                for (auto *scope : root->scopes) {
+                    if (!target_scope || scope->vars.size() > target_scope->vars.size())
+                        target_scope = scope;
+                }
             }
-            design_root_ = target_scope;
+            // there may not be a test bench
+            design_root_ = target_scope || roots_.empty() ? target_scope : roots_[0];
         } else {
             std::vector<Scope *> candidates{};
             for (auto const &s : scopes_) {
-- 
2.43.0


From d43a06c68dd1bf38d757dbe7b95ff857211d22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:51 +0000
Subject: [PATCH 103/104] fix: rename the members of structures in rewritten
 waveforms

---
 tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
index d8f7558..e3aaf5d 100644
--- a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
+++ b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
@@ -208,7 +208,7 @@ private:
             if (!parent_scope) continue;
             auto *var = parent_scope->vars[var_index];
             // insert the var into a new scope
-            insert_new_var(parent_scope, var, var_name);
+            insert_new_var(scope, var, var_name);
             // delete the var
             parent_scope->vars[var_index] = nullptr;
         }
@@ -243,16 +243,17 @@ private:
         auto tokens = get_tokens(var_name, ".");
         Scope *parent_scope = parent;
         uint64_t index;
-        for (index = 0; index < tokens.size(); index++) {
-            auto *scope = get_scope(parent_scope, tokens[index]);
-            if (!scope)
-                break;
-            else
-                parent_scope = scope;
+        for (index = 0; index + 1 < tokens.size(); index++) {
+            auto const &scopes = parent_scope->scopes;
+            auto pos = std::find_if(scopes.begin(), scopes.end(), [&](auto const *scope) {
+                return scope->def.name == tokens[index];
+            });
+            if (pos == scopes.end()) break;
+            parent_scope = *pos;
         }
         // we found the parent scope, now need to locate the var
         // compute the rest of var name
-        auto name = fmt::format("{}", fmt::join(tokens.begin() + index - 1, tokens.end(), "."));
+        auto name = fmt::format("{}", fmt::join(tokens.begin() + index, tokens.end(), "."));
         for (uint64_t i = 0; i < parent_scope->vars.size(); i++) {
             if (parent_scope->vars[i] && parent_scope->vars[i]->name == name) {
                 return {parent_scope, i};
-- 
2.43.0


From 8648fcd0dfd4b1725ec6f87404ad00680653f63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:51 +0000
Subject: [PATCH 104/104] fix: rewrite waveforms with an empty symbol table

---
 tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
index e3aaf5d..a0d7426 100644
--- a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
+++ b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <filesystem>
 #include <iostream>
 #include <memory>
@@ -155,7 +156,7 @@ private:
         auto tokens = get_tokens(target_instance, ".");
         // we only interest in the ones after that
         // special case where the design is flat
-        if (tokens.size() == 1) {
+        if (tokens.size() <= 1) {
             // choose whatever one that has the highest
             Scope *target_scope = nullptr;
             for (auto *root : roots_) {
@@ -346,7 +347,7 @@ private:
         using namespace sqlite_orm;
         auto result = db_->select(&hgdb::Instance::name,
                                   order_by(length(&hgdb::Instance::name)).desc(), limit(1));
-        return result[0];
+        return result.empty() ? "" : result[0];
     }
 
     static std::vector<std::string> get_tokens(const std::string &line,
-- 
2.43.0


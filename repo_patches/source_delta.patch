From 1b5688eddf982396581596a02299c26b814524aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:48 +0000
Subject: [PATCH 01/78] fix: requests whose JSON has the wrong shape or number
 range abort the process

---
 src/proto.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 1ca4c3e..459f934 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -179,7 +179,7 @@ namespace hgdb {
 template <typename T>
 static bool check_member(T &document, const char *member_name, std::string &error,
                          bool set_error = true) {
-    if (!document.HasMember(member_name)) {
+    if (!document.IsObject() || !document.HasMember(member_name)) {
         if (set_error) error = fmt::format("Unable to find member {0}", member_name);
         return false;
     }
@@ -197,7 +197,8 @@ static std::optional<T> get_member(K &document, const char *member_name, std::st
             error = fmt::format("Invalid type for {0}", member_name);
         }
     } else if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value) {
-        if (document[member_name].IsNumber()) {
+        // only a number that T can represent is accepted
+        if (document[member_name].template Is<T>()) {
             return document[member_name].template Get<T>();
         } else if (check_type) {
             error = fmt::format("Invalid type for {0}", member_name);
@@ -980,6 +981,12 @@ void OptionChangeRequest::parse_payload(const std::string &payload) {
     document.Parse(payload.c_str());
     if (!check_json(document, status_code_, error_reason_)) return;
 
+    if (!document.IsObject()) {
+        error_reason_ = "Options have to be a map";
+        status_code_ = status_code::error;
+        return;
+    }
+
     // need to loop through the map by hand
     for (auto const &option : document.GetObject()) {
         std::string name = option.name.GetString();
-- 
2.43.0


From 0b8e841e3a4f28cc43d2cd17fce98bf631eeca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:48 +0000
Subject: [PATCH 02/78] fix: adding a breakpoint without a usable line number
 reads an empty optional

---
 src/proto.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 459f934..8b6eebd 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -787,10 +787,11 @@ void BreakPointRequest::parse_payload(const std::string &payload) {
 
     bool line_num_required = bp_action_ == action::add;
     auto line_num = get_member<uint64_t>(document, "line_num", error_reason_, line_num_required);
-    if (line_num_required || line_num)
-        bp_.line_num = *line_num;
-    else
-        bp_.line_num = 0;
+    if (line_num_required && !line_num) {
+        status_code_ = status_code::error;
+        return;
+    }
+    bp_.line_num = line_num ? *line_num : 0;
 
     auto column_num = get_member<uint64_t>(document, "column_num", error_reason_, false);
     auto condition = get_member<std::string>(document, "condition", error_reason_, false);
-- 
2.43.0


From 4474d5bfda1dcdfdbd9fe2a21c494837878ba959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:48 +0000
Subject: [PATCH 03/78] fix: monitor requests with an unknown action are
 treated as valid

---
 src/proto.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/proto.cc b/src/proto.cc
index 8b6eebd..92d3bd8 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -1023,6 +1023,7 @@ void MonitorRequest::parse_payload(const std::string &payload) {
     } else if (*action_type == "remove") {
         action_type_ = ActionType::remove;
     } else {
+        status_code_ = status_code::error;
         error_reason_ = "Unknown action type " + *action_type;
         return;
     }
-- 
2.43.0


From 579f3baa34e4abcd880b899d81555fb9c795fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:39 +0000
Subject: [PATCH 04/78] fix: error responses to malformed requests drop the
 request's token

---
 src/proto.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 92d3bd8..6e8d5e3 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -694,16 +694,21 @@ std::unique_ptr<Request> Request::parse_request(const std::string &str) {
     if (document.HasParseError()) return std::make_unique<ErrorRequest>("Invalid json object");
 
     std::string error;
+    // get token. errors need to carry it as well
+    auto token = get_member<std::string>(document, "token", error, false, false);
+    auto make_error = [&token](const std::string &reason) {
+        auto r = std::make_unique<ErrorRequest>(reason);
+        if (token) r->token_ = *token;
+        return r;
+    };
     auto request = get_member<bool>(document, "request", error);
-    if (!request || !(*request)) return std::make_unique<ErrorRequest>(error);
+    if (!request || !(*request)) return make_error(error);
 
     auto type = get_member<std::string>(document, "type", error);
-    if (!type) return std::make_unique<ErrorRequest>(error);
+    if (!type) return make_error(error);
     // get payload
     auto payload = check_member(document, "payload", error);
-    if (!payload) return std::make_unique<ErrorRequest>(error);
-    // get token
-    auto token = get_member<std::string>(document, "token", error, false, true);
+    if (!payload) return make_error(error);
 
     auto const &type_str = *type;
     std::unique_ptr<Request> result;
-- 
2.43.0


From b948fb55855f72c2c6dd06ad51b824dda37f5f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:39 +0000
Subject: [PATCH 05/78] fix: the no-symbol-table error response drops the
 request's token

---
 src/debug.cc | 10 +++++-----
 src/debug.hh |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 9aaa5c4..6dbf834 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -539,7 +539,7 @@ void Debugger::handle_connection(const ConnectionRequest &req, uint64_t conn_id)
 }
 
 void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id) {
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
 
     // depends on whether it is "add" or "remove"
     auto const &bp_info = req.breakpoint();
@@ -580,7 +580,7 @@ void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id)
 }
 
 void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t conn_id) {
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
     // depends on whether it is "add" or "remove"
     auto const &bp_info = req.breakpoint();
     if (req.bp_action() == BreakPointRequest::action::add) {
@@ -604,7 +604,7 @@ void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t con
 
 void Debugger::handle_bp_location(const BreakPointLocationRequest &req, uint64_t conn_id) {
     // if db is not connected correctly, abort
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
 
     auto const &filename = req.filename();
     auto const &line_num = req.line_num();
@@ -1198,10 +1198,10 @@ void Debugger::set_vendor_initial_options() {
     }
 }
 
-bool Debugger::check_send_db_error(RequestType type, uint64_t conn_id) {
+bool Debugger::check_send_db_error(const Request &req, uint64_t conn_id) {
     if (!db_) {
         // need to send error response
-        auto resp = GenericResponse(status_code::error, type,
+        auto resp = GenericResponse(status_code::error, req,
                                     "Database is not initialized or is initialized incorrectly");
         send_message(resp.str(log_enabled_), conn_id);
         return false;
diff --git a/src/debug.hh b/src/debug.hh
index fdf35dd..07fe09a 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -150,7 +150,7 @@ private:
     void set_vendor_initial_options();
 
     // common checker
-    bool check_send_db_error(RequestType type, uint64_t conn_id);
+    bool check_send_db_error(const Request &req, uint64_t conn_id);
 
     // scheduler
     bool should_trigger(DebugBreakPoint *bp);
-- 
2.43.0


From bf9dd4399798640f8d257230dca212c1132bba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 06/78] fix: requests and clock edges without a symbol table
 dereference null pointers

---
 src/debug.cc | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 6dbf834..f1be4bc 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -107,6 +107,9 @@ void Debugger::stop() {
 
 void Debugger::eval() {
     perf::PerfCount perf("eval loop", perf_count_);
+    // nothing to evaluate without a symbol table
+    if (!scheduler_) [[unlikely]]
+        return;
     // if we set to pause at posedge, need to do that at the very beginning!
     if (pause_at_posedge) [[unlikely]] {
         lock_.wait();
@@ -634,14 +637,15 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
     switch (req.command_type()) {
         case CommandRequest::CommandType::continue_: {
             log_info("handle_command: continue_");
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::BreakPointOnly);
+            if (scheduler_)
+                scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::BreakPointOnly);
             lock_.ready();
             break;
         }
         case CommandRequest::CommandType::stop: {
             log_info("handle_command: stop");
-            scheduler_->clear();
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::None);
+            if (scheduler_) scheduler_->clear();
+            if (scheduler_) scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::None);
             // we will unlock the lock during the stop step to ensure proper shutdown
             // of the runtime
             namespaces_.default_rtl()->finish_sim();
@@ -651,26 +655,28 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
         case CommandRequest::CommandType::step_over: {
             log_info("handle_command: step_over");
             // change the mode into step through
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::StepOver);
+            if (scheduler_) scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::StepOver);
             lock_.ready();
             break;
         }
         case CommandRequest::CommandType::reverse_continue: {
             log_info("handle_command: reverse_continue");
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::ReverseBreakpointOnly);
+            if (scheduler_)
+                scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::ReverseBreakpointOnly);
             lock_.ready();
             break;
         }
         case CommandRequest::CommandType::step_back: {
             log_info("handle_command: step_back");
             // change the mode into step back
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::StepBack);
+            if (scheduler_) scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::StepBack);
             lock_.ready();
             break;
         }
         case CommandRequest::CommandType::jump: {
             log_info(fmt::format("handle_command: jump ({0})", req.time()));
-            auto res = namespaces_.default_rtl()->rewind(req.time(), scheduler_->clock_handles());
+            auto res = scheduler_ && namespaces_.default_rtl()->rewind(req.time(),
+                                                                       scheduler_->clock_handles());
             if (!res) {
                 status = status_code::error;
                 error = "Underlying RTL simulator does not support rewind";
@@ -693,6 +699,7 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
 void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t conn_id) {
     switch (req.command_type()) {
         case DebuggerInformationRequest::CommandType::breakpoints: {
+            if (!check_send_db_error(req, conn_id)) return;
             auto bps = scheduler_->get_current_breakpoints();
             std::vector<const DebugBreakPoint *> bps_;
             bps_.reserve(bps.size());
@@ -737,6 +744,7 @@ void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t
             return;
         }
         case DebuggerInformationRequest::CommandType::filename: {
+            if (!check_send_db_error(req, conn_id)) return;
             auto filenames = db_->get_filenames();
             auto resp = DebuggerInformationResponse(filenames);
             req.set_token(resp);
@@ -881,6 +889,7 @@ void Debugger::handle_option_change(const OptionChangeRequest &req, uint64_t con
 }
 
 void Debugger::handle_monitor(const MonitorRequest &req, uint64_t conn_id) {
+    if (!check_send_db_error(req, conn_id)) return;
     if (req.status() == status_code::success) {
         // depends on whether it is an add or remove action
         auto *ns = get_namespace(req.instance_id(), req.breakpoint_id(), req.namespace_id(),
@@ -923,6 +932,7 @@ void Debugger::handle_monitor(const MonitorRequest &req, uint64_t conn_id) {
 
 void Debugger::handle_set_value(const SetValueRequest &req, uint64_t conn_id) {  // NOLINT
     log_info(fmt::format("handle set value {0} = {1}", req.var_name(), req.value()));
+    if (!check_send_db_error(req, conn_id)) return;
 
     if (req.status() == status_code::success) {
         auto *ns = get_namespace(req.instance_id(), req.breakpoint_id(), req.namespace_id(),
@@ -970,6 +980,7 @@ void Debugger::handle_symbol(const SymbolRequest &, uint64_t) {
 
 // NOLINTNEXTLINE
 void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t conn_id) {
+    if (!check_send_db_error(req, conn_id)) return;
     auto *ns = get_namespace(std::nullopt, req.breakpoint_id(), req.namespace_id(), namespaces_,
                              db_.get());
     if (!ns) {
-- 
2.43.0


From 86d23150286de1c99ed9083c5215c596fff7a0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 07/78] fix: a failed connection request leaves the scheduler
 with a freed symbol table

---
 src/debug.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index f1be4bc..c585de9 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -40,14 +40,16 @@ Debugger::Debugger(std::shared_ptr<AVPIProvider> vpi) {
 
 bool Debugger::initialize_db(const std::string &filename) {
     log_info(fmt::format("Debug database set to {0}", filename));
-    initialize_db(create_symbol_table(filename));
-    return db_ != nullptr;
+    auto db = create_symbol_table(filename);
+    if (!db) return false;
+    initialize_db(std::move(db));
+    return true;
 }
 
 void Debugger::initialize_db(std::unique_ptr<SymbolTableProvider> db) {
-    // reset db_ for every new connection
-    db_ = nullptr;
+    // keep what we have if there is nothing to replace it with
     if (!db) return;
+    // reset db_ for every new connection
     db_ = std::move(db);
 
     // set up the name mapping
-- 
2.43.0


From d3f644f7b403634578ae6c19b26fd23f00b24722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 08/78] fix: monitor requests on an ambiguous namespace
 dereference a null pointer

---
 src/debug.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index c585de9..3a2cc9f 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -897,6 +897,10 @@ void Debugger::handle_monitor(const MonitorRequest &req, uint64_t conn_id) {
         auto *ns = get_namespace(req.instance_id(), req.breakpoint_id(), req.namespace_id(),
                                  namespaces_, db_.get());
 
+        if (!ns) {
+            send_error(req, "Unable to determine design namespace", conn_id);
+            return;
+        }
         auto &monitor = *ns->monitor;
         if (req.action_type() == MonitorRequest::ActionType::add) {
             std::optional<std::string> full_name =
-- 
2.43.0


From b76553690afa955d448aae8bb3565704db50af3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:54 +0000
Subject: [PATCH 09/78] fix: an expression that divides by zero kills the
 simulator

x / 0, x % 0 and INT64_MIN / -1 raise SIGFPE inside the simulator process.
They evaluate to 0 (and to the wrapped quotient) instead.
---
 src/eval.cc | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index 5a783a1..c954e85 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -376,6 +376,11 @@ Expr* parse(const std::string& value, DebugExpression& debug_expression) {
     }
 }
 
+// two's complement negation that is well-defined for every value
+ExpressionType negate(ExpressionType value) {
+    return static_cast<ExpressionType>(0 - static_cast<uint64_t>(value));
+}
+
 ExpressionType Expr::eval() const {
     switch (op) {
         case Operator::None:
@@ -383,17 +388,25 @@ ExpressionType Expr::eval() const {
         case Operator::UAdd:
             return unary->eval();
         case Operator::UMinus:
-            return -unary->eval();
+            return negate(unary->eval());
         case Operator::Add:
             return left->eval() + right->eval();
         case Operator::Minus:
             return left->eval() - right->eval();
         case Operator::Multiply:
             return left->eval() * right->eval();
-        case Operator::Divide:
-            return left->eval() / right->eval();
-        case Operator::Mod:
-            return left->eval() % right->eval();
+        case Operator::Divide: {
+            auto const divisor = right->eval();
+            // neither a zero divisor nor the INT64_MIN / -1 overflow may trap
+            if (divisor == 0) return 0;
+            if (divisor == -1) return negate(left->eval());
+            return left->eval() / divisor;
+        }
+        case Operator::Mod: {
+            auto const divisor = right->eval();
+            if (divisor == 0 || divisor == -1) return 0;
+            return left->eval() % divisor;
+        }
         case Operator::Eq:
             return left->eval() == right->eval();
         case Operator::Neq:
-- 
2.43.0


From ca47b459e16c9da463bcb1df2588771bbba8cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:54 +0000
Subject: [PATCH 10/78] fix: deeply nested expressions overflow the stack or
 never finish parsing

The two alternatives of a unary expression parsed the operand twice, so an
unbalanced "-(-(-(..." took exponential time; nesting and length were unbounded
although both parsing and evaluation recurse.
---
 src/eval.cc | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/eval.cc b/src/eval.cc
index c954e85..9a2bf7f 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -1,5 +1,6 @@
 #include "eval.hh"
 
+#include <cctype>
 #include <stack>
 #include <tao/pegtl.hpp>
 
@@ -77,7 +78,7 @@ struct expression;
 struct unary_expression;
 struct bracketed : seq<open_bracket, expression, close_bracket> {};
 struct value : pad<sor<hex_integer, integer, variable, bracketed>, space> {};
-struct unary_expression0 : sor<seq<unary_op, value>, seq<unary_op, unary_expression>> {};
+struct unary_expression0 : seq<unary_op, unary_expression> {};
 struct unary_expression : sor<value, pad<unary_expression0, space>> {};
 struct multiplicative_expression0 : seq<multiplicative_op, unary_expression> {};
 struct multiplicative_expression : seq<unary_expression, star<multiplicative_expression0>> {};
@@ -351,7 +352,42 @@ struct action<close_bracket> {
     }
 };
 
+// both the parser and the evaluation are recursive. refuse expressions that would exhaust the stack
+bool exceeds_limit(const std::string& value) {
+    constexpr auto max_size = 1u << 15u;
+    constexpr auto max_depth = 128u;
+    if (value.size() > max_size) return true;
+    uint64_t depth = 0, unary = 0;
+    for (auto const c : value) {
+        switch (c) {
+            case '(':
+                depth++;
+                unary = 0;
+                break;
+            case ')':
+                if (depth > 0) depth--;
+                unary = 0;
+                break;
+            case '!':
+            case '~':
+            case '+':
+            case '-':
+                unary++;
+                break;
+            default:
+                if (!std::isspace(static_cast<unsigned char>(c))) unary = 0;
+        }
+        if (depth + unary > max_depth) return true;
+    }
+    return false;
+}
+
 Expr* parse(const std::string& value, DebugExpression& debug_expression) {
+    if (exceeds_limit(value)) [[unlikely]] {
+        log::log(log::log_level::error, "Expression too complex. Unable to parse.");
+        debug_expression.set_error();
+        return nullptr;
+    }
     tao::pegtl::memory_input in(value, "");
     ParserState state(debug_expression);
     bool r = false;
-- 
2.43.0


From a4da6cb5f7ee98694640dff92d8577e23a13b2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:54 +0000
Subject: [PATCH 11/78] fix: 64-bit hex literals with the top bit set saturate
 instead of matching the signal

---
 src/eval.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index 9a2bf7f..85b95e7 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -239,9 +239,10 @@ struct action<hex_integer> {
         auto pos = value.find_first_of('\'');
         std::stringstream ss;
         ss << std::hex << value.substr(pos + 2);
-        ExpressionType v;
+        // a full 64-bit pattern does not fit into the signed type when parsed directly
+        uint64_t v;
         ss >> v;
-        expr->set_value(v);
+        expr->set_value(static_cast<ExpressionType>(v));
         state.push(expr);
     }
 };
-- 
2.43.0


From bbe838f45fcfdd3ef2edfd16bbf4bcd59a048261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:10 +0000
Subject: [PATCH 12/78] fix: operators of a user condition bind across the
 symbol table's condition

"en" merged with "a || b" became "en && a || b", so the breakpoint stopped even
when its statement was not enabled (and a compound enable was split likewise).
---
 src/scheduler.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 5a612b3..87e8089 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -340,17 +340,20 @@ std::unordered_map<std::string, vpiHandle> compute_trigger_symbol(const BreakPoi
     return result;
 }
 
+std::string merge_user_condition(const std::string &db_condition, const std::string &condition) {
+    if (condition.empty()) return db_condition.empty() ? "1" : db_condition;
+    // an invalid condition has to stay invalid and cannot be completed by the merge
+    if (!DebugExpression(condition).correct()) return condition;
+    return fmt::format("({0}) && ({1})", db_condition.empty() ? "1" : db_condition, condition);
+}
+
 // NOLINTNEXTLINE
 DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp,
                                            DebugBreakPoint::Type bp_type,
                                            const std::string &target_var, bool dry_run,
                                            DebuggerNamespace *target_ns) {
     // add them to the eval vector
-    std::string cond = "1";
-    if (!db_bp.condition.empty()) cond = db_bp.condition;
-    if (!bp_info.condition.empty()) {
-        cond.append(" && " + bp_info.condition);
-    }
+    auto const cond = merge_user_condition(db_bp.condition, bp_info.condition);
 
     auto insert_bp = [bp_type, this, &db_bp, cond,
                       dry_run](DebuggerNamespace *ns) -> DebugBreakPoint * {
-- 
2.43.0


From 5b7b5707f551ad411d3a2448c8e9134af7699a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:10 +0000
Subject: [PATCH 13/78] fix: adding and removing breakpoints only touches the
 first entry of an id

An id has one entry per design namespace, plus entries of its own for data and
assertion breakpoints. Removal erased only the first entry with the id (or nothing
at all when that one was of another kind), an update changed the condition of one
namespace only and turned a data breakpoint into a normal one for good.
---
 src/scheduler.cc | 116 ++++++++++++++++-------------------------------
 src/scheduler.hh |   5 +-
 2 files changed, 43 insertions(+), 78 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 87e8089..61f24e8 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -256,39 +256,26 @@ std::vector<DebugBreakPoint *> Scheduler::create_next_breakpoints(
     return res;
 }
 
-std::unique_ptr<DebugBreakPoint> Scheduler::remove_breakpoint(uint64_t bp_id,
-                                                              DebugBreakPoint::Type type) {
+std::vector<std::unique_ptr<DebugBreakPoint>> Scheduler::remove_breakpoints(
+    const std::function<bool(const DebugBreakPoint &)> &predicate) {
     // notice that removal doesn't need reordering
-    for (auto pos = breakpoints_.begin(); pos != breakpoints_.end(); pos++) {
-        if ((*pos)->id == bp_id) {
-            // erase the type first. if the remaining type is 0, then we completely erase the
-            // breakpoint
-            auto t = static_cast<uint32_t>((*pos)->type);
-            t &= ~(static_cast<uint32_t>(type));
-            if (t == 0) {
-                // remove it before after transfer the ownership
-                std::unique_ptr<DebugBreakPoint> res = std::move(*pos);
-                breakpoints_.erase(pos);
-                inserted_breakpoints_.erase(bp_id);
-                return res;
-            } else {
-                (*pos)->type = static_cast<DebugBreakPoint::Type>(t);
-            }
-            break;
+    // transfer the ownership of everything that's removed
+    std::vector<std::unique_ptr<DebugBreakPoint>> result;
+    for (auto pos = breakpoints_.begin(); pos != breakpoints_.end();) {
+        if (predicate(**pos)) {
+            result.emplace_back(std::move(*pos));
+            pos = breakpoints_.erase(pos);
+        } else {
+            pos++;
         }
     }
-    return nullptr;
+    return result;
 }
 
 void Scheduler::remove_assert_breakpoints() {
-    auto ids =
-        std::unordered_set<uint32_t>(inserted_breakpoints_.begin(), inserted_breakpoints_.end());
-    for (auto bp_id : ids) {
-        auto *bp = get_breakpoint(bp_id);
-        if (bp && bp->has_type_flag(DebugBreakPoint::Type::assert) && bp->evaluated) {
-            remove_breakpoint(bp_id, DebugBreakPoint::Type::assert);
-        }
-    }
+    remove_breakpoints([](auto const &bp) {
+        return bp.type == DebugBreakPoint::Type::assert && bp.evaluated;
+    });
 }
 
 void clear_breakpoints(std::vector<std::unique_ptr<DebugBreakPoint>> &breakpoints) {
@@ -313,7 +300,6 @@ void Scheduler::set_evaluation_mode(EvaluationMode mode) {
 }
 
 void Scheduler::clear() {
-    inserted_breakpoints_.clear();
     breakpoints_.clear();
 }
 
@@ -388,7 +374,6 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
             return holder.get();
         } else {
             auto &ptr = breakpoints_.emplace_back(std::move(bp));
-            inserted_breakpoints_.emplace(db_bp.id);
             log_info(
                 fmt::format("Breakpoint inserted into {0}:{1}", db_bp.filename, db_bp.line_num));
             return ptr.get();
@@ -401,32 +386,28 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
 
     switch (bp_type) {
         case DebugBreakPoint::Type::normal: {
-            if (inserted_breakpoints_.find(db_bp.id) == inserted_breakpoints_.end()) {
-                DebugBreakPoint *p = nullptr;
+            DebugBreakPoint *p = nullptr;
+            // update the breakpoint entries if it's already inserted. there is one entry for each
+            // design namespace. data and assertion breakpoints at the same place have their own
+            for (auto &b : breakpoints_) {
+                if (db_bp.id == b->id && b->type == DebugBreakPoint::Type::normal) {
+                    b->expr = std::make_unique<DebugExpression>(cond);
+                    auto *ns = namespaces_[b->ns_id];
+                    auto *rtl = ns->rtl.get();
+                    util::validate_expr(rtl, db_, b->expr.get(), db_bp.id, *db_bp.instance_id);
+                    if (!b->expr->correct()) [[unlikely]] {
+                        log_error("Unable to validate breakpoint expression: " + cond);
+                    }
+                    p = b.get();
+                }
+            }
+            if (!p) {
                 for (auto *ns : namespaces) {
                     p = insert_bp(ns);
                 }
-                // Only need to return one
-                return p;
-            } else {
-                // update breakpoint entry
-                for (auto &b : breakpoints_) {
-                    if (db_bp.id == b->id) {
-                        b->expr = std::make_unique<DebugExpression>(cond);
-                        auto *ns = namespaces_[b->ns_id];
-                        auto *rtl = ns->rtl.get();
-                        util::validate_expr(rtl, db_, b->expr.get(), db_bp.id, *db_bp.instance_id);
-                        if (!b->expr->correct()) [[unlikely]] {
-                            log_error("Unable to validate breakpoint expression: " + cond);
-                        }
-                        // need to update the bp type flag
-                        b->type = static_cast<DebugBreakPoint::Type>(static_cast<int>(b->type) |
-                                                                     static_cast<int>(bp_type));
-                        return b.get();
-                    }
-                }
-                return nullptr;
             }
+            // Only need to return one
+            return p;
         }
         case DebugBreakPoint::Type::data: {
             // we skip insertion if everything matches
@@ -483,27 +464,7 @@ DebugBreakPoint *Scheduler::add_assert_breakpoint(hgdb::DebuggerNamespace *ns,
 
 void Scheduler::clear_data_breakpoints() {
     std::lock_guard guard(breakpoint_lock_);
-    // if it has both data breakpoints and normal breakpoints, clear the flag
-    // else remove this breakpoint
-    std::unordered_set<uint32_t> bps;
-    for (auto &bp : breakpoints_) {
-        if (bp->has_type_flag(DebugBreakPoint::Type::data)) {
-            if (bp->has_type_flag(DebugBreakPoint::Type::normal)) {
-                bp->type = DebugBreakPoint::Type::normal;
-            } else {
-                // remove this breakpoint
-                bps.emplace(bp->id);
-            }
-        }
-    }
-    for (auto id : bps) {
-        auto pos = std::find_if(breakpoints_.begin(), breakpoints_.end(),
-                                [id](auto const &bp) { return bp->id == id; });
-        if (pos != breakpoints_.end()) {
-            breakpoints_.erase(pos);
-            inserted_breakpoints_.erase(id);
-        }
-    }
+    remove_breakpoints([](auto const &bp) { return bp.type == DebugBreakPoint::Type::data; });
 }
 
 void Scheduler::reorder_breakpoints() {
@@ -520,14 +481,17 @@ void Scheduler::reorder_breakpoints() {
 
 void Scheduler::remove_breakpoint(const BreakPoint &bp, DebugBreakPoint::Type type) {
     std::lock_guard guard(breakpoint_lock_);
-    remove_breakpoint(bp.id, type);
+    remove_breakpoints(
+        [&bp, type](auto const &b) { return b.id == bp.id && b.type == type; });
 }
 
 std::optional<uint64_t> Scheduler::remove_data_breakpoint(uint64_t bp_id) {
     std::lock_guard guard(breakpoint_lock_);
-    auto ptr = remove_breakpoint(bp_id, DebugBreakPoint::Type::data);
-    if (ptr) {
-        return ptr->watch_id;
+    auto removed = remove_breakpoints([bp_id](auto const &b) {
+        return b.id == bp_id && b.type == DebugBreakPoint::Type::data;
+    });
+    if (!removed.empty()) {
+        return removed.front()->watch_id;
     } else {
         return std::nullopt;
     }
diff --git a/src/scheduler.hh b/src/scheduler.hh
index eee36d3..563f9a8 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -1,6 +1,7 @@
 #ifndef HGDB_SCHEDULER_HH
 #define HGDB_SCHEDULER_HH
 
+#include <functional>
 #include <mutex>
 
 #include "eval.hh"
@@ -90,7 +91,6 @@ private:
     EvaluationMode evaluation_mode_ = EvaluationMode::BreakPointOnly;
 
     std::vector<std::unique_ptr<DebugBreakPoint>> breakpoints_;
-    std::unordered_set<uint32_t> inserted_breakpoints_;
     // look up table for ordering of breakpoints
     std::unordered_map<uint32_t, uint64_t> bp_ordering_table_;
     std::vector<uint32_t> bp_ordering_;
@@ -111,7 +111,8 @@ private:
 
     std::vector<DebugBreakPoint *> create_next_breakpoints(
         const std::optional<BreakPoint> &bp_info);
-    std::unique_ptr<DebugBreakPoint> remove_breakpoint(uint64_t bp_id, DebugBreakPoint::Type type);
+    std::vector<std::unique_ptr<DebugBreakPoint>> remove_breakpoints(
+        const std::function<bool(const DebugBreakPoint &)> &predicate);
     void remove_assert_breakpoints();
 
     // log
-- 
2.43.0


From 2f3b3e5766a499ba7036d848e22a288e626dc01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:23 +0000
Subject: [PATCH 14/78] fix: the scheduler loses its position when commands or
 breakpoints change at a stop

The next breakpoint was derived from the entries marked as evaluated. Switching
between continue, step and reverse dropped these marks, so continue after a step
stopped again at breakpoints already passed; removing the current breakpoint had the
same effect; a reverse-continue from a statement without a breakpoint read an empty
optional; entries of the same line skipped over by a grouped stop were never visited.
Use the position in the execution order instead.
---
 src/scheduler.cc | 113 +++++++++++++++++++++--------------------------
 src/scheduler.hh |   2 +
 2 files changed, 53 insertions(+), 62 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 61f24e8..8b1f2b1 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -74,6 +74,17 @@ std::vector<DebugBreakPoint *> Scheduler::next_step_over_breakpoints() {
     return create_next_breakpoints(bp_info);
 }
 
+void clear_breakpoints(std::vector<std::unique_ptr<DebugBreakPoint>> &breakpoints) {
+    for (auto &bp : breakpoints) {
+        bp->evaluated = false;
+    }
+}
+
+std::optional<uint64_t> Scheduler::current_order() const {
+    if (!current_breakpoint_id_) return std::nullopt;
+    return bp_ordering_table_.at(*current_breakpoint_id_);
+}
+
 std::vector<DebugBreakPoint *> Scheduler::next_normal_breakpoints() {
     // if no breakpoint inserted. return early
     std::lock_guard guard(breakpoint_lock_);
@@ -83,23 +94,17 @@ std::vector<DebugBreakPoint *> Scheduler::next_normal_breakpoints() {
     // we need to skip then and evaluate them at the next evaluation cycle
     // maybe revisit this logic later? doesn't seem to be correct to me where there are
     // breakpoint inserted during breakpoint hit
+    // the position is where we currently are in the execution order, which doesn't have to be an
+    // inserted breakpoint, e.g. after stepping or if it is removed
     uint64_t index = 0;
-    // find index
-    std::optional<uint64_t> pos;
-    for (uint64_t i = 0; i < breakpoints_.size(); i++) {
-        if (breakpoints_[i]->evaluated) {
-            pos = i;
-        }
-    }
-    if (pos) {
-        // we have a last hit
-        if (*pos + 1 < breakpoints_.size()) {
-            index = *pos + 1;
-        } else {
-            // the end
-            return {};
-        }
+    auto const order = current_order();
+    while (index < breakpoints_.size() &&
+           (breakpoints_[index]->evaluated ||
+            (order && bp_ordering_table_.at(breakpoints_[index]->id) < *order))) {
+        index++;
     }
+    // the end
+    if (index >= breakpoints_.size()) return {};
 
     std::vector<DebugBreakPoint *> result{breakpoints_[index].get()};
 
@@ -164,53 +169,37 @@ std::vector<DebugBreakPoint *> Scheduler::next_reverse_breakpoints() {
 
     std::vector<DebugBreakPoint *> result;
 
-    // if the current breakpoint is the first one already, we need to reverse the time to previous
-    // cycle
+    // notice that breakpoints are already ordered, so we search from the end
     std::optional<uint64_t> target_index;
-    if (current_breakpoint_id_) {
-        if (breakpoints_.front()->id == *current_breakpoint_id_) {
-            // we have reached the first one of the current
-            // call reverse
-            auto handles = clock_handles_;
-            auto res = namespaces_.default_rtl()->reverse_last_posedge(handles);
-            if (!res) {
-                // can't revert the time. use the current timestamp
-                // just return the first one
-                target_index = 0;
-            } else {
-                // time reversed
-                current_breakpoint_id_ = std::nullopt;
-                target_index = breakpoints_.size() - 1;
-            }
-        } else {
-            // find the next inserted breakpoint
-            // notice that breakpoints are already ordered,
-            // so we search from the beginning
-            for (auto i = breakpoints_.size() - 1; i >= 1; i--) {
-                auto id = breakpoints_[i]->id;
-                if (id == *current_breakpoint_id_) {
-                    // find it
-                    target_index = i - 1;
-                    break;
-                }
-            }
+    auto const order = current_order();
+    for (auto i = breakpoints_.size(); i > 0 && !target_index; i--) {
+        auto const &bp = breakpoints_[i - 1];
+        if (!bp->evaluated && (!order || bp_ordering_table_.at(bp->id) <= *order)) {
+            target_index = i - 1;
         }
-    } else {
-        // just return the last one
-        target_index = breakpoints_.size() - 1;
     }
-
-    if (!target_index && target_index >= breakpoints_.size()) {
-        current_breakpoint_id_ = std::nullopt;
-        return {};
+    if (!target_index) {
+        // if there is nothing before the current breakpoint, we need to reverse the time to
+        // previous cycle
+        auto handles = clock_handles_;
+        if (namespaces_.default_rtl()->reverse_last_posedge(handles)) {
+            // time reversed
+            clear_breakpoints(breakpoints_);
+            target_index = breakpoints_.size() - 1;
+        } else {
+            // can't revert the time. use the current timestamp
+            // just return the first one
+            target_index = 0;
+        }
     }
     result.emplace_back(breakpoints_[*target_index].get());
     // if it's not single thread mode
     if (!single_thread_mode_) {
         scan_breakpoints(*target_index, false, result);
     }
-    // use the last one as the breakpoint id
-    current_breakpoint_id_ = result.back()->id;
+    // the first will be current breakpoint id since we might skip some of them
+    // in the middle
+    current_breakpoint_id_ = result.front()->id;
 
     for (auto *bp : result) {
         bp->evaluated = true;
@@ -278,12 +267,6 @@ void Scheduler::remove_assert_breakpoints() {
     });
 }
 
-void clear_breakpoints(std::vector<std::unique_ptr<DebugBreakPoint>> &breakpoints) {
-    for (auto &bp : breakpoints) {
-        bp->evaluated = false;
-    }
-}
-
 void Scheduler::start_breakpoint_evaluation() {
     // remove assertions first
     remove_assert_breakpoints();
@@ -294,7 +277,10 @@ void Scheduler::start_breakpoint_evaluation() {
 
 void Scheduler::set_evaluation_mode(EvaluationMode mode) {
     if (evaluation_mode_ != mode) {
-        clear_breakpoints(breakpoints_);
+        // we're still at the current breakpoint
+        for (auto &bp : breakpoints_) {
+            bp->evaluated = current_breakpoint_id_ && bp->id == *current_breakpoint_id_;
+        }
         evaluation_mode_ = mode;
     }
 }
@@ -356,6 +342,7 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
         bp->column_num = db_bp.column_num;
         bp->trigger_symbols = compute_trigger_symbol(db_bp, rtl, db_);
         bp->type = bp_type;
+        bp->evaluated = current_breakpoint_id_ && bp->id == *current_breakpoint_id_;
         util::validate_expr(rtl, db_, bp->expr.get(), db_bp.id, *db_bp.instance_id);
         if (!bp->expr->correct()) [[unlikely]] {
             log_error("Unable to validate breakpoint expression: " + cond);
@@ -547,8 +534,10 @@ void Scheduler::scan_breakpoints(uint64_t ref_index, bool forward,
         if (next_bp->type == DebugBreakPoint::Type::data) {
             return true;
         }
-        // same enable expression but different instance id
-        if (next_bp->instance_id != ref_bp->instance_id &&
+        // same enable expression but different instance id, or the same instance of a different
+        // design namespace
+        if (!next_bp->evaluated &&
+            (next_bp->instance_id != ref_bp->instance_id || next_bp->ns_id != ref_bp->ns_id) &&
             next_bp->enable_expr->expression() == target_expr) {
             result.emplace_back(next_bp.get());
         }
diff --git a/src/scheduler.hh b/src/scheduler.hh
index 563f9a8..6be260d 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -109,6 +109,8 @@ private:
     // cache clock handles as well
     std::vector<vpiHandle> clock_handles_;
 
+    // position of the current breakpoint in the execution order, if any
+    [[nodiscard]] std::optional<uint64_t> current_order() const;
     std::vector<DebugBreakPoint *> create_next_breakpoints(
         const std::optional<BreakPoint> &bp_info);
     std::vector<std::unique_ptr<DebugBreakPoint>> remove_breakpoints(
-- 
2.43.0


From 952c5d0ace1e68856ca8df6e50eaca1df527da56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:39 +0000
Subject: [PATCH 15/78] fix: going back with nothing enabled before hangs the
 simulator

If the simulator cannot rewind (any further), step_back and reverse_continue offer
the first breakpoint again and again. If its condition doesn't hold the evaluation
loop never ends. Turn around and stop at the next one in forward direction instead.
---
 src/debug.cc     | 17 ++++++++++++++++-
 src/scheduler.cc |  8 ++++++++
 src/scheduler.hh |  2 ++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index 3a2cc9f..7be08a4 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -124,6 +124,9 @@ void Debugger::eval() {
     log_info("Start breakpoint evaluation...");
     start_breakpoint_evaluation();  // clean the state and fetch values
 
+    // the last breakpoint that didn't hit, used to detect that we cannot go back any further
+    std::optional<std::tuple<const DebugBreakPoint *, uint32_t, uint64_t>> last_missed;
+
     // main loop to fetch breakpoints
     while (true) {
         std::vector<DebugBreakPoint *> bps;
@@ -141,7 +144,19 @@ void Debugger::eval() {
             if (hits[i]) result.emplace_back(bps[i]);
         }
 
-        if (!result.empty()) {
+        if (result.empty()) {
+            auto missed = std::make_tuple(const_cast<const DebugBreakPoint *>(bps[0]), bps[0]->id,
+                                          namespaces_.default_rtl()->get_simulation_time());
+            if (last_missed == missed) {
+                // we're offered the same breakpoint over and over again, since there is nothing
+                // before it
+                scheduler_->go_forward();
+                last_missed.reset();
+            } else {
+                last_missed = missed;
+            }
+        } else {
+            last_missed.reset();
             // send the breakpoint hit information
             send_breakpoint_hit(result);
             // also send any breakpoint values
diff --git a/src/scheduler.cc b/src/scheduler.cc
index 8b1f2b1..a84b541 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -285,6 +285,14 @@ void Scheduler::set_evaluation_mode(EvaluationMode mode) {
     }
 }
 
+void Scheduler::go_forward() {
+    if (evaluation_mode_ == EvaluationMode::StepBack) {
+        set_evaluation_mode(EvaluationMode::StepOver);
+    } else if (evaluation_mode_ == EvaluationMode::ReverseBreakpointOnly) {
+        set_evaluation_mode(EvaluationMode::BreakPointOnly);
+    }
+}
+
 void Scheduler::clear() {
     breakpoints_.clear();
 }
diff --git a/src/scheduler.hh b/src/scheduler.hh
index 6be260d..9b78998 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -61,6 +61,8 @@ public:
 
     // change scheduling semantics
     void set_evaluation_mode(EvaluationMode mode);
+    // turn around if it's going backward
+    void go_forward();
     void clear();
 
     // handle breakpoints
-- 
2.43.0


From c8f3a89ccd96af70298f919d55d83fad4034ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:39 +0000
Subject: [PATCH 16/78] fix: data breakpoints watch the wrong variable, leak
 watches or half-succeed

A second data breakpoint on a watched variable kept watch id 0 and thus checked an
unrelated variable; removing one of several took the shared watch away from the
others while clearing kept all of them (with their stale last value); the site's own
condition was dropped as soon as the user gave one; an invalid condition or variable
was dereferenced as null, or reported after some sites had been inserted.
---
 src/debug.cc     | 63 +++++++++++++++++++++++++++--------------------
 src/scheduler.cc | 64 ++++++++++++++++++++++++++++--------------------
 src/scheduler.hh | 11 ++++++---
 3 files changed, 80 insertions(+), 58 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 7be08a4..d4a137c 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1004,14 +1004,17 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
     if (!check_send_db_error(req, conn_id)) return;
     auto *ns = get_namespace(std::nullopt, req.breakpoint_id(), req.namespace_id(), namespaces_,
                              db_.get());
-    if (!ns) {
+    // clear doesn't address any breakpoint
+    if (!ns && req.action() != DataBreakpointRequest::Action::clear) {
         send_error(req, "Unable to determine design namespace", conn_id);
         return;
     }
 
     switch (req.action()) {
         case DataBreakpointRequest::Action::clear: {
-            scheduler_->clear_data_breakpoints();
+            for (auto const &[ns_id, watch_id] : scheduler_->clear_data_breakpoints()) {
+                namespaces_[ns_id]->monitor->remove_monitor_variable(watch_id);
+            }
             auto resp = GenericResponse(status_code::success, req);
             send_message(resp.str(log_enabled_), conn_id);
             log_info("data breakpoint cleared");
@@ -1039,27 +1042,40 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                 var_names.emplace(ns->rtl->get_full_name(full_name));
             }
 
-            for (auto const &[id, var_name, data_condition] : bp_ids) {
+            if (!req.condition().empty() && !DebugExpression(req.condition()).correct()) {
+                send_error(req, "Invalid data breakpoint expression/data_condition", conn_id);
+                return;
+            }
+
+            auto add_data_breakpoint = [&](auto const &info, bool dry_run_) -> DebugBreakPoint * {
+                auto const &[id, var_name, data_condition] = info;
                 auto bp_opt = db_->get_breakpoint(id);
-                if (!bp_opt) {
-                    send_error(req, "Invalid breakpoint id", conn_id);
-                    return;
-                }
+                if (!bp_opt) return nullptr;
                 // merge data_condition
                 std::string bp_condition;
                 if (req.condition().empty())
                     bp_condition = data_condition;
-                else if (bp_condition.empty())
+                else if (data_condition.empty())
                     bp_condition = req.condition();
                 else
                     // merge these two
-                    bp_condition = fmt::format("{0} && {1}", req.condition(), data_condition);
-                auto *bp =
-                    scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, dry_run);
-                if (!bp) {
+                    bp_condition = fmt::format("({0}) && ({1})", req.condition(), data_condition);
+                return scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, dry_run_,
+                                                       ns);
+            };
+
+            // make sure all of them are valid before inserting any
+            for (auto const &info : bp_ids) {
+                if (!add_data_breakpoint(info, true)) {
                     send_error(req, "Invalid data breakpoint expression/data_condition", conn_id);
                     return;
                 }
+            }
+
+            for (auto const &info : bp_ids) {
+                if (dry_run) break;
+                auto *bp = add_data_breakpoint(info, false);
+                if (!bp) continue;
 
                 // they share the same variable
                 // notice that in case some breakpoints got deleted, we need to get it from the
@@ -1071,16 +1087,10 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                     value_ptr = std::make_shared<std::optional<int64_t>>();
                 }
 
-                // add it to the monitor
-                if (!dry_run) {
-                    auto watched = monitor->is_monitored(bp->full_rtl_handle,
-                                                         MonitorRequest::MonitorType::data);
-                    if (!watched) {
-                        bp->watch_id = monitor->add_monitor_variable(
-                            bp->full_rtl_name, MonitorRequest::MonitorType::data, value_ptr);
-                        log_info(fmt::format("Added watch variable with ID {0}", bp->watch_id));
-                    }
-                }
+                // add it to the monitor, which reuses the watch if there is one already
+                bp->watch_id = monitor->add_monitor_variable(
+                    bp->full_rtl_name, MonitorRequest::MonitorType::data, value_ptr);
+                log_info(fmt::format("Added watch variable with ID {0}", bp->watch_id));
             }
 
             // sort the breakpoints
@@ -1092,12 +1102,11 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
             break;
         }
         case DataBreakpointRequest::Action::remove: {
-            auto watch_id = scheduler_->remove_data_breakpoint(req.breakpoint_id());
+            auto watches = scheduler_->remove_data_breakpoint(req.breakpoint_id(), ns->id);
             // remove from monitor as well
-            if (watch_id) {
-                auto &monitor = ns->monitor;
-                monitor->remove_monitor_variable(*watch_id);
-                log_info(fmt::format("Remove watch variable with ID {0}", *watch_id));
+            for (auto const &[ns_id, watch_id] : watches) {
+                namespaces_[ns_id]->monitor->remove_monitor_variable(watch_id);
+                log_info(fmt::format("Remove watch variable with ID {0}", watch_id));
             }
             // tell client we're good
             auto success_resp = GenericResponse(status_code::success, req);
diff --git a/src/scheduler.cc b/src/scheduler.cc
index a84b541..e6b18f2 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -405,9 +405,11 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
             return p;
         }
         case DebugBreakPoint::Type::data: {
+            if (!target_ns) return nullptr;
             // we skip insertion if everything matches
             for (auto const &b : breakpoints_) {
-                if (b->id == db_bp.id && b->has_type_flag(DebugBreakPoint::Type::data)) {
+                if (b->id == db_bp.id && b->has_type_flag(DebugBreakPoint::Type::data) &&
+                    b->ns_id == target_ns->id) {
                     // check if it's data breakpoint as well
                     if (b->target_rtl_var_name == target_var && b->expr->expression() == cond) {
                         // no need to insert
@@ -415,21 +417,20 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
                     }
                 }
             }
-            DebugBreakPoint *data_bp = nullptr;
-            for (auto *ns : namespaces) {
-                data_bp = insert_bp(ns);
-                auto *rtl = ns->rtl.get();
-                auto expr = DebugExpression(target_var);
-                util::validate_expr(rtl, db_, &expr, db_bp.id, *db_bp.instance_id);
-                auto const &handles = expr.get_resolved_symbol_handles();
-                if (!expr.correct() || handles.size() != 1) {
-                    log_error("Unable to validate variable in data breakpoint: " + target_var);
-                    return nullptr;
-                }
-                data_bp->full_rtl_handle = handles.begin()->second;
-                data_bp->full_rtl_name = rtl->get_full_name(data_bp->full_rtl_handle);
-                data_bp->target_rtl_var_name = target_var;
+            // make sure the variable is valid before inserting anything
+            auto *rtl = target_ns->rtl.get();
+            auto expr = DebugExpression(target_var);
+            util::validate_expr(rtl, db_, &expr, db_bp.id, *db_bp.instance_id);
+            auto const &handles = expr.get_resolved_symbol_handles();
+            if (!expr.correct() || handles.size() != 1 || !handles.begin()->second) {
+                log_error("Unable to validate variable in data breakpoint: " + target_var);
+                return nullptr;
             }
+            auto *data_bp = insert_bp(target_ns);
+            if (!data_bp) return nullptr;
+            data_bp->full_rtl_handle = handles.begin()->second;
+            data_bp->full_rtl_name = rtl->get_full_name(data_bp->full_rtl_handle);
+            data_bp->target_rtl_var_name = target_var;
             return data_bp;
         }
         case DebugBreakPoint::Type::assert: {
@@ -443,12 +444,13 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
 
 DebugBreakPoint *Scheduler::add_data_breakpoint(const std::string &full_name,
                                                 const std::string &expression,
-                                                const BreakPoint &db_bp, bool dry_run) {
+                                                const BreakPoint &db_bp, bool dry_run,
+                                                DebuggerNamespace *ns) {
     // we use the same add breakpoint function with different flags on
     BreakPoint bp;
     bp.condition = expression;
     // we allow duplicated breakpoints to be inserted here
-    auto *data_bp = add_breakpoint(bp, db_bp, DebugBreakPoint::Type::data, full_name, dry_run);
+    auto *data_bp = add_breakpoint(bp, db_bp, DebugBreakPoint::Type::data, full_name, dry_run, ns);
     return data_bp;
 }
 
@@ -457,9 +459,10 @@ DebugBreakPoint *Scheduler::add_assert_breakpoint(hgdb::DebuggerNamespace *ns,
     return add_breakpoint(db_bp, db_bp, DebugBreakPoint::Type::assert, "", false, ns);
 }
 
-void Scheduler::clear_data_breakpoints() {
+std::set<std::pair<uint32_t, uint64_t>> Scheduler::clear_data_breakpoints() {
     std::lock_guard guard(breakpoint_lock_);
-    remove_breakpoints([](auto const &bp) { return bp.type == DebugBreakPoint::Type::data; });
+    return unused_watches(
+        remove_breakpoints([](auto const &bp) { return bp.type == DebugBreakPoint::Type::data; }));
 }
 
 void Scheduler::reorder_breakpoints() {
@@ -480,16 +483,23 @@ void Scheduler::remove_breakpoint(const BreakPoint &bp, DebugBreakPoint::Type ty
         [&bp, type](auto const &b) { return b.id == bp.id && b.type == type; });
 }
 
-std::optional<uint64_t> Scheduler::remove_data_breakpoint(uint64_t bp_id) {
+std::set<std::pair<uint32_t, uint64_t>> Scheduler::remove_data_breakpoint(uint64_t bp_id,
+                                                                          uint32_t ns_id) {
     std::lock_guard guard(breakpoint_lock_);
-    auto removed = remove_breakpoints([bp_id](auto const &b) {
-        return b.id == bp_id && b.type == DebugBreakPoint::Type::data;
-    });
-    if (!removed.empty()) {
-        return removed.front()->watch_id;
-    } else {
-        return std::nullopt;
+    return unused_watches(remove_breakpoints([bp_id, ns_id](auto const &b) {
+        return b.id == bp_id && b.type == DebugBreakPoint::Type::data && b.ns_id == ns_id;
+    }));
+}
+
+std::set<std::pair<uint32_t, uint64_t>> Scheduler::unused_watches(
+    const std::vector<std::unique_ptr<DebugBreakPoint>> &removed) const {
+    // breakpoints on the same variable share the same watch
+    std::set<std::pair<uint32_t, uint64_t>> result;
+    for (auto const &bp : removed) result.emplace(bp->ns_id, bp->watch_id);
+    for (auto const &bp : breakpoints_) {
+        if (bp->type == DebugBreakPoint::Type::data) result.erase({bp->ns_id, bp->watch_id});
     }
+    return result;
 }
 
 std::vector<const DebugBreakPoint *> Scheduler::get_current_breakpoints() {
diff --git a/src/scheduler.hh b/src/scheduler.hh
index 9b78998..d1b9f4c 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -3,6 +3,7 @@
 
 #include <functional>
 #include <mutex>
+#include <set>
 
 #include "eval.hh"
 #include "rtl.hh"
@@ -75,11 +76,11 @@ public:
     std::vector<const DebugBreakPoint *> get_current_breakpoints();
     DebugBreakPoint *add_data_breakpoint(const std::string &full_name,
                                          const std::string &expression, const BreakPoint &db_bp,
-                                         bool dry_run);
+                                         bool dry_run, DebuggerNamespace *ns);
     DebugBreakPoint *add_assert_breakpoint(DebuggerNamespace *ns, const BreakPoint &db_bp);
-    void clear_data_breakpoints();
-    // also return associated monitor id, if any
-    std::optional<uint64_t> remove_data_breakpoint(uint64_t bp_id);
+    // also return the namespace and watch IDs that are no longer used
+    std::set<std::pair<uint32_t, uint64_t>> clear_data_breakpoints();
+    std::set<std::pair<uint32_t, uint64_t>> remove_data_breakpoint(uint64_t bp_id, uint32_t ns_id);
 
     // breakpoint mode
     bool breakpoint_only() const;
@@ -117,6 +118,8 @@ private:
         const std::optional<BreakPoint> &bp_info);
     std::vector<std::unique_ptr<DebugBreakPoint>> remove_breakpoints(
         const std::function<bool(const DebugBreakPoint &)> &predicate);
+    [[nodiscard]] std::set<std::pair<uint32_t, uint64_t>> unused_watches(
+        const std::vector<std::unique_ptr<DebugBreakPoint>> &removed) const;
     void remove_assert_breakpoints();
 
     // log
-- 
2.43.0


From f89a0b01b1e509b8494d9a3aea526cf8c8b4d534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 17/78] fix: breakpoints inserted by id are not sorted into the
 execution order

---
 src/debug.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/debug.cc b/src/debug.cc
index d4a137c..6d43c04 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -614,6 +614,7 @@ void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t con
             return;
         }
         add_breakpoint(bp_info, *bp);
+        scheduler_->reorder_breakpoints();
     } else {
         scheduler_->remove_breakpoint(bp_info, DebugBreakPoint::Type::normal);
     }
-- 
2.43.0


From c60071e71e51132ad5ad248fa81ceda8329658aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 18/78] fix: assertion breakpoints are not sorted into the
 execution order

They also crashed the simulator without a symbol table, asked the global VPI instead
of the provider, and stopped repeatedly if the user stepped away from them.
---
 src/debug.cc     | 2 ++
 src/rtl.cc       | 2 +-
 src/scheduler.cc | 5 ++++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 6d43c04..88183ca 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -186,6 +186,7 @@ std::vector<RTLSimulatorClient *> Debugger::rtl_clients() const {
 }
 
 void Debugger::handle_assert() {
+    if (!db_) return;
     auto assert_info = namespaces_.default_rtl()->get_assert_info();
     if (!assert_info) {
         log_error("Incorrect usage of hgdb assertion");
@@ -207,6 +208,7 @@ void Debugger::handle_assert() {
     bp.condition.clear();
     // need to insert it into the scheduler
     scheduler_->add_assert_breakpoint(ns, bp);
+    scheduler_->reorder_breakpoints();
 }
 
 void Debugger::set_option(const std::string &name, bool value) {
diff --git a/src/rtl.cc b/src/rtl.cc
index e36525b..0ebcd2a 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -1024,7 +1024,7 @@ std::optional<RTLSimulatorClient::AssertInfo> RTLSimulatorClient::get_assert_inf
         auto type = vpi_->vpi_get(vpiType, it);
         if (type == vpiModule) {
             // this is the module
-            res.full_name = vpi_get_str(vpiFullName, it);
+            res.full_name = vpi_->vpi_get_str(vpiFullName, it);
         } else if (type == vpiConstant) {
             auto const_type = vpi_->vpi_get(vpiConstType, it);
             if (const_type == vpiStringConst) {
diff --git a/src/scheduler.cc b/src/scheduler.cc
index e6b18f2..23c74b1 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -279,6 +279,8 @@ void Scheduler::set_evaluation_mode(EvaluationMode mode) {
     if (evaluation_mode_ != mode) {
         // we're still at the current breakpoint
         for (auto &bp : breakpoints_) {
+            // evaluated assertions are going to be removed
+            if (bp->type == DebugBreakPoint::Type::assert && bp->evaluated) continue;
             bp->evaluated = current_breakpoint_id_ && bp->id == *current_breakpoint_id_;
         }
         evaluation_mode_ = mode;
@@ -350,7 +352,8 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
         bp->column_num = db_bp.column_num;
         bp->trigger_symbols = compute_trigger_symbol(db_bp, rtl, db_);
         bp->type = bp_type;
-        bp->evaluated = current_breakpoint_id_ && bp->id == *current_breakpoint_id_;
+        bp->evaluated = bp_type != DebugBreakPoint::Type::assert && current_breakpoint_id_ &&
+                        bp->id == *current_breakpoint_id_;
         util::validate_expr(rtl, db_, bp->expr.get(), db_bp.id, *db_bp.instance_id);
         if (!bp->expr->correct()) [[unlikely]] {
             log_error("Unable to validate breakpoint expression: " + cond);
-- 
2.43.0


From 66c0d1bed0f511d46418bba455c6abb64101fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 19/78] fix: a jump that is answered with an error releases the
 stopped simulator

---
 src/debug.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index 88183ca..affe09e 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -701,8 +701,9 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
                 status = status_code::error;
                 error = "Underlying RTL simulator does not support rewind";
                 log_error(error);
+            } else {
+                lock_.ready();
             }
-            lock_.ready();
             break;
         }
     }
-- 
2.43.0


From 2f70aab90c432bf114d5fc166752c42863c0c24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 20/78] fix: the signal cache serves values of another time

Values were cached by requests handled in between clock edges, survived a rewind or
jump within one evaluation and, for other handles of the same signal or while the
option was off, a set-value.
---
 src/debug.cc | 31 +++++++++++++++++++++----------
 src/debug.hh |  4 ++++
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index affe09e..2b66710 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -132,7 +132,10 @@ void Debugger::eval() {
         std::vector<DebugBreakPoint *> bps;
         {
             perf::PerfCount perf_get_bp("next breakpoints", perf_count_);
+            auto const time = namespaces_.default_rtl()->get_simulation_time();
             bps = scheduler_->next_breakpoints();
+            // going back in time changes the values
+            if (time != namespaces_.default_rtl()->get_simulation_time()) clear_signal_cache();
         }
 
         if (bps.empty()) break;
@@ -167,6 +170,8 @@ void Debugger::eval() {
     }
 
     send_monitor_values(MonitorRequest::MonitorType::clock_edge);
+    // the values are going to change once the simulation continues
+    clear_signal_cache(false);
 }
 
 [[maybe_unused]] bool Debugger::is_verilator() {
@@ -702,6 +707,7 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
                 error = "Underlying RTL simulator does not support rewind";
                 log_error(error);
             } else {
+                clear_signal_cache();
                 lock_.ready();
             }
             break;
@@ -977,13 +983,8 @@ void Debugger::handle_set_value(const SetValueRequest &req, uint64_t conn_id) {
         auto res = rtl->set_value(*full_name, req.value());
         if (res) {
             // we need to remove cached value
-            if (use_signal_cache_) {
-                auto *handle = rtl->get_handle(*full_name);
-                std::lock_guard guard(cached_signal_values_lock_);
-                if (cached_signal_values_.find(handle) != cached_signal_values_.end()) {
-                    cached_signal_values_.erase(handle);
-                }
-            }
+            // notice that other handles, e.g. slices, may refer to the same signal
+            clear_signal_cache();
             auto resp = GenericResponse(status_code::success, req);
             send_message(resp.str(log_enabled_), conn_id);
             return;
@@ -1302,7 +1303,7 @@ std::string Debugger::get_full_name(uint32_t ns_id, uint64_t instance_id,
 std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle handle,
                                                   bool use_delayed) {
     // assume the name is already elaborated/mapped
-    if (use_signal_cache_) [[unlikely]] {
+    if (use_signal_cache_ && signal_cache_valid_) [[unlikely]] {
         std::lock_guard guard(cached_signal_values_lock_);
         if (cached_signal_values_.find(handle) != cached_signal_values_.end()) {
             return cached_signal_values_.at(handle);
@@ -1321,7 +1322,7 @@ std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle hand
                              static_cast<void *>(handle)));
 
     if (value) {
-        if (use_signal_cache_) {
+        if (use_signal_cache_ && signal_cache_valid_) {
             std::lock_guard guard(cached_signal_values_lock_);
             cached_signal_values_.emplace(handle, *value);
         }
@@ -1416,10 +1417,20 @@ void Debugger::add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp
 
 void Debugger::start_breakpoint_evaluation() {
     scheduler_->start_breakpoint_evaluation();
-    cached_signal_values_.clear();
+    clear_signal_cache(true);
     update_delayed_values();
 }
 
+void Debugger::clear_signal_cache() {
+    std::lock_guard guard(cached_signal_values_lock_);
+    cached_signal_values_.clear();
+}
+
+void Debugger::clear_signal_cache(bool valid) {
+    clear_signal_cache();
+    signal_cache_valid_ = valid;
+}
+
 void Debugger::add_cb_clocks() {
     // TODO:
     //     for now we assume all the designs share the same clock
diff --git a/src/debug.hh b/src/debug.hh
index 07fe09a..1a7debb 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -73,6 +73,8 @@ private:
     // reduce VPI traffic
     std::unordered_map<vpiHandle, int64_t> cached_signal_values_;
     std::mutex cached_signal_values_lock_;
+    // values can only be cached while we are evaluating a clock edge
+    std::atomic<bool> signal_cache_valid_ = false;
     // reduce DB traffic and remapping computation
     std::unordered_map<uint64_t, std::string> cached_instance_name_;
     std::mutex cached_instance_name_lock_;
@@ -164,6 +166,8 @@ private:
     // cached wrapper
     std::optional<int64_t> get_signal_value(uint32_t ns_id, vpiHandle handle,
                                             bool use_delayed = false);
+    void clear_signal_cache();
+    void clear_signal_cache(bool valid);
     std::string get_full_name(uint32_t ns_id, uint64_t instance_id, const std::string &var_name);
 
     // callbacks
-- 
2.43.0


From 09dae5b2fa47dbec50b1a476de4cf17f1bff9456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 21/78] fix: a resuming command sent while running releases the
 next stop

RuntimeLock remembered it, so the simulator reported the next breakpoint and ran
right through it.
---
 src/debug.cc  | 2 ++
 src/thread.cc | 2 ++
 src/thread.hh | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index 2b66710..02745d5 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -160,6 +160,8 @@ void Debugger::eval() {
             }
         } else {
             last_missed.reset();
+            // any command that arrived before has nothing to do with this hit
+            lock_.reset();
             // send the breakpoint hit information
             send_breakpoint_hit(result);
             // also send any breakpoint values
diff --git a/src/thread.cc b/src/thread.cc
index deb24b8..4600f4b 100644
--- a/src/thread.cc
+++ b/src/thread.cc
@@ -8,6 +8,8 @@ void RuntimeLock::wait() {
     ready_.store(false);
 }
 
+void RuntimeLock::reset() { ready_.store(false); }
+
 void RuntimeLock::ready() {
     if (!ready_.load()) {
         {
diff --git a/src/thread.hh b/src/thread.hh
index 0d4968c..2fd82a4 100644
--- a/src/thread.hh
+++ b/src/thread.hh
@@ -12,6 +12,8 @@ public:
     RuntimeLock() = default;
     void wait();
     void ready();
+    // forget about any ready() that nobody has been waiting for
+    void reset();
 
 private:
     std::mutex m_;
-- 
2.43.0


From be8dd68cdf8e89edebe2651a03866e40295ceb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 22/78] fix: evaluating many breakpoints in two threads loses
 hits

Both threads write bits of the same std::vector<bool> words.
---
 src/debug.cc | 8 ++++----
 src/debug.hh | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 02745d5..4dfd757 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1369,8 +1369,8 @@ bool Debugger::eval_breakpoint(DebugBreakPoint *bp) {
     return false;
 }
 
-std::vector<bool> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *> &bps) {
-    std::vector<bool> hits(bps.size());
+std::vector<uint8_t> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *> &bps) {
+    std::vector<uint8_t> hits(bps.size());
     std::fill(hits.begin(), hits.end(), false);
     // most of the time is on getting simulation values, so using many threads
     // doesn't make any sense
@@ -1404,8 +1404,8 @@ std::vector<bool> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *
     return hits;
 }
 
-void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<bool> &result,
-                               uint64_t start, uint64_t end) {
+void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps,
+                               std::vector<uint8_t> &result, uint64_t start, uint64_t end) {
     for (auto index = start; index < end; index++) {
         bool r = eval_breakpoint(bps[index]);
         result[index] = r;
diff --git a/src/debug.hh b/src/debug.hh
index 1a7debb..ad9aac6 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -157,9 +157,10 @@ private:
     // scheduler
     bool should_trigger(DebugBreakPoint *bp);
     bool eval_breakpoint(DebugBreakPoint *bp);
-    void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<bool> &result,
+    // notice that the results are written concurrently, hence no std::vector<bool>
+    void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<uint8_t> &result,
                          uint64_t start, uint64_t end);
-    std::vector<bool> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
+    std::vector<uint8_t> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
     void add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
     void start_breakpoint_evaluation();
 
-- 
2.43.0


From 2d302908b3d68c3c3681b02d6750ebaca27058ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 23/78] fix: the server sends messages without holding the
 connection lock

The simulator thread iterates over the connections while the server thread adds and
removes them; and a request read together with a stop command looked up a connection
that was already gone, which terminated the process.
---
 src/server.cc | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/server.cc b/src/server.cc
index 1f5865f..9a1df6b 100644
--- a/src/server.cc
+++ b/src/server.cc
@@ -26,17 +26,22 @@ DebugServer::DebugServer(bool enable_logging) {
     };
     // on disconnection
     auto on_disconnect = [this](websocketpp::connection_hdl hdl) {
-        std::lock_guard<std::mutex> guard{connections_lock_};
-        auto conn = server_.get_con_from_hdl(std::move(hdl));
-        // not efficient, but we assume client won't disconnect often
-        for (auto const &[id, c] : connections_) {
-            if (conn == c) {
-                connections_.erase(id);
-                connection_id_map_.erase(conn.get());
-                break;
+        bool empty;
+        {
+            std::lock_guard<std::mutex> guard{connections_lock_};
+            auto conn = server_.get_con_from_hdl(std::move(hdl));
+            // not efficient, but we assume client won't disconnect often
+            for (auto const &[id, c] : connections_) {
+                if (conn == c) {
+                    connections_.erase(id);
+                    connection_id_map_.erase(conn.get());
+                    break;
+                }
             }
+            empty = connections_.empty();
         }
-        if (connections_.empty() && on_all_client_disconnect_) {
+        // not under the lock since it may have to wait for someone who's sending messages
+        if (empty && on_all_client_disconnect_) {
             (*on_all_client_disconnect_)();
         }
     };
@@ -75,12 +80,14 @@ void DebugServer::stop() {
 }
 
 void DebugServer::send(const std::string &payload) {
+    std::lock_guard guard(connections_lock_);
     for (const auto &[id, conn] : connections_) {
         conn->send(payload);
     }
 }
 
 void DebugServer::send(const std::string &payload, const std::string &topic) {
+    std::lock_guard guard(connections_lock_);
     if (topics_.find(topic) != topics_.end()) [[likely]] {
         auto const &ids = topics_.at(topic);
         // to ensure high performance during runtime, we don't do clean up
@@ -94,6 +101,7 @@ void DebugServer::send(const std::string &payload, const std::string &topic) {
 }
 
 void DebugServer::send(const std::string &payload, uint64_t conn_id) {
+    std::lock_guard guard(connections_lock_);
     if (connections_.find(conn_id) != connections_.end()) [[likely]] {
         connections_.at(conn_id)->send(payload);
     }
@@ -105,7 +113,14 @@ void DebugServer::set_on_message(
                                        const raw_message &msg) {
         auto str = msg->get_payload();
         auto conn = server_.get_con_from_hdl(hdl);
-        auto id = connection_id_map_.at(conn.get());
+        uint64_t id;
+        {
+            std::lock_guard guard(connections_lock_);
+            // may have been stopped already
+            auto it = connection_id_map_.find(conn.get());
+            if (it == connection_id_map_.end()) return;
+            id = it->second;
+        }
         callback(str, id);
     };
     server_.set_message_handler(on_message);
@@ -116,10 +131,12 @@ void DebugServer::set_on_call_client_disconnect(const std::function<void()> &fun
 }
 
 void DebugServer::add_to_topic(const std::string &topic, uint64_t conn_id) {
+    std::lock_guard guard(connections_lock_);
     topics_[topic].emplace(conn_id);
 }
 
 void DebugServer::remove_from_topic(const std::string &topic, uint64_t conn_id) {
+    std::lock_guard guard(connections_lock_);
     if (topics_[topic].find(conn_id) != topics_[topic].end()) {
         topics_[topic].erase(conn_id);
     }
-- 
2.43.0


From 315c525ce4badbcef9351de726a20732571c147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 24/78] fix: requests handled during an evaluation free the
 breakpoints being evaluated

The server thread removed breakpoints or replaced the scheduler and the symbol table
while the simulator thread was using them. Evaluate and handle one at a time; a pause
is not part of the evaluation.
---
 src/debug.cc | 19 +++++++++++++------
 src/debug.hh |  2 ++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 4dfd757..39948dc 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -109,18 +109,18 @@ void Debugger::stop() {
 
 void Debugger::eval() {
     perf::PerfCount perf("eval loop", perf_count_);
-    // nothing to evaluate without a symbol table
-    if (!scheduler_) [[unlikely]]
-        return;
     // if we set to pause at posedge, need to do that at the very beginning!
     if (pause_at_posedge) [[unlikely]] {
         lock_.wait();
     }
     // the function that actually triggers breakpoints!
-    // notice that there is a hidden race condition
     // when we trigger the breakpoint, the runtime (simulation side) will be paused via a lock.
-    // however, the server side can still take breakpoint requests, hence modifying the
-    // breakpoints_.
+    // the server side can still take breakpoint requests, hence modifying the breakpoints_.
+    // requests that arrive during the evaluation have to wait.
+    std::unique_lock eval_guard(eval_lock_);
+    // nothing to evaluate without a symbol table
+    if (!scheduler_) [[unlikely]]
+        return;
     log_info("Start breakpoint evaluation...");
     start_breakpoint_evaluation();  // clean the state and fetch values
 
@@ -167,7 +167,10 @@ void Debugger::eval() {
             // also send any breakpoint values
             send_monitor_values(MonitorRequest::MonitorType::breakpoint);
             // then pause the execution
+            // requests are handled during the pause
+            eval_guard.unlock();
             lock_.wait();
+            eval_guard.lock();
         }
     }
 
@@ -193,6 +196,7 @@ std::vector<RTLSimulatorClient *> Debugger::rtl_clients() const {
 }
 
 void Debugger::handle_assert() {
+    std::lock_guard guard(eval_lock_);
     if (!db_) return;
     auto assert_info = namespaces_.default_rtl()->get_assert_info();
     if (!assert_info) {
@@ -233,6 +237,7 @@ Debugger::~Debugger() {
 }
 
 void Debugger::detach() {
+    std::lock_guard guard(eval_lock_);
     // remove all the clock related callback
     // depends on whether it's verilator or not
     // always use the first one
@@ -273,6 +278,8 @@ void Debugger::detach() {
 }
 
 void Debugger::on_message(const std::string &message, uint64_t conn_id) {
+    // requests change what's being evaluated
+    std::lock_guard guard(eval_lock_);
     // server can only receive request
     auto req = Request::parse_request(message);
     if (req->status() != status_code::success) {
diff --git a/src/debug.hh b/src/debug.hh
index ad9aac6..29e2fe4 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -65,6 +65,8 @@ private:
     std::thread server_thread_;
     // runtime lock
     RuntimeLock lock_;
+    // held while evaluating a clock edge (except when it's paused) or handling a request
+    std::recursive_mutex eval_lock_;
     std::atomic<bool> is_running_ = false;
 
     // used for scheduler
-- 
2.43.0


From 57a20274c3383ed0743778121c35fcb633374a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:32 +0000
Subject: [PATCH 25/78] fix: delayed variables share one history per signal
 across delays and namespaces

Two variables delayed by a different number of cycles showed the same value, watch ids
of different namespaces were confused, and the value of a delay of two or more was
read from an empty optional until enough samples were available.
---
 src/debug.cc   | 41 +++++++++++++++++++----------------------
 src/debug.hh   |  9 +++++----
 src/monitor.cc |  2 +-
 3 files changed, 25 insertions(+), 27 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 39948dc..73d579c 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -477,7 +477,7 @@ std::string value_to_str(std::optional<int64_t> value, bool use_hex, uint32_t wi
 
 // NOLINTNEXTLINE
 std::string Debugger::get_value_str(uint32_t ns_id, const std::string &rtl_name, bool is_rtl,
-                                    bool use_delay) {
+                                    std::optional<uint32_t> delay) {
     std::string value_str;
     if (is_rtl) {
         auto &rtl = namespaces_[ns_id]->rtl;
@@ -489,12 +489,13 @@ std::string Debugger::get_value_str(uint32_t ns_id, const std::string &rtl_name,
             width = width_opt ? *width_opt : 0u;
         }
 
-        if (use_delay) {
-            if (delayed_variables_.find(handle) == delayed_variables_.end()) [[unlikely]] {
+        if (delay) {
+            auto const key = std::make_pair(handle, *delay);
+            if (delayed_variables_.find(key) == delayed_variables_.end()) [[unlikely]] {
                 log_error("Internal error on handling delayed variables");
                 value_str = error_value_str;
             } else {
-                value_str = value_to_str(delayed_variables_.at(handle).value, use_hex_str_, width);
+                value_str = value_to_str(delayed_variables_.at(key).value, use_hex_str_, width);
             }
         } else {
             auto value = rtl->get_value(handle);
@@ -1200,9 +1201,10 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
             auto var_names = resolve_context_name(var.value, ctx_var.name, bp->id, rtl, db_.get());
             for (auto const &[front_name, rtl_name] : var_names) {
                 using VariableType = SymbolTableProvider::VariableType;
-                std::string value_str =
-                    get_value_str(bp->ns_id, rtl_name, var.is_rtl,
-                                  static_cast<VariableType>(ctx_var.type) == VariableType::delay);
+                std::optional<uint32_t> delay;
+                if (static_cast<VariableType>(ctx_var.type) == VariableType::delay)
+                    delay = ctx_var.depth;
+                std::string value_str = get_value_str(bp->ns_id, rtl_name, var.is_rtl, delay);
                 scope.add_local_value(front_name, value_str);
             }
         }
@@ -1309,8 +1311,7 @@ std::string Debugger::get_full_name(uint32_t ns_id, uint64_t instance_id,
     return full_name;
 }
 
-std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle handle,
-                                                  bool use_delayed) {
+std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle handle) {
     // assume the name is already elaborated/mapped
     if (use_signal_cache_ && signal_cache_valid_) [[unlikely]] {
         std::lock_guard guard(cached_signal_values_lock_);
@@ -1320,10 +1321,6 @@ std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle hand
     }
     // need to actually get the value
     std::optional<int64_t> value;
-    if (use_delayed && delayed_variables_.find(handle) != delayed_variables_.end()) [[unlikely]] {
-        return delayed_variables_.at(handle).value;
-    }
-
     value = namespaces_[ns_id]->rtl->get_value(handle);
 
     if (!value)
@@ -1541,6 +1538,8 @@ void Debugger::update_delayed_values() {
             ns->monitor->get_watched_values(MonitorRequest::MonitorType::delay_clock_edge);
         for (auto &iter : delayed_variables_) {
             auto &var_info = iter.second;
+            // watch IDs are only unique within the namespace
+            if (var_info.ns_id != ns->id) continue;
             auto pos = std::find_if(values.begin(), values.end(), [&var_info](auto const &iter) {
                 return iter.first == var_info.watch_id;
             });
@@ -1562,24 +1561,22 @@ void Debugger::process_delayed_breakpoint(uint32_t bp_id) {
     for (auto *ns : namespaces) {
         auto *rtl = ns->rtl.get();
         auto *monitor = ns->monitor.get();
-        auto func = [this, bp]() { return eval_breakpoint(bp); };
-
         for (auto const &[ctx, v] : context_vars) {
             auto var_names = resolve_context_name(v.value, ctx.name, bp_id, rtl, db_.get());
             for (auto const &[front_var, rtl_name] : var_names) {
                 // we really don't care about front end name
                 // get current value as initialization. this allows the breakpoint next cycle
                 // has the proper value before monitor logic kicks in
+                auto *handle = rtl->get_handle(rtl_name);
+                auto const key = std::make_pair(handle, ctx.depth);
+                // keep the history if it's already watched
+                if (!handle || delayed_variables_.find(key) != delayed_variables_.end()) continue;
                 auto value = rtl->get_value(rtl_name);
-                auto watch_id = monitor->add_monitor_variable(rtl_name, ctx.depth, value);
-                monitor->set_monitor_variable_condition(watch_id, func);
                 DelayedVariable delayed_var;
                 delayed_var.rtl_name = rtl_name;
-                delayed_var.watch_id = watch_id;
-                auto *handle = rtl->get_handle(rtl_name);
-                if (handle) {
-                    delayed_variables_.emplace(handle, delayed_var);
-                }
+                delayed_var.watch_id = monitor->add_monitor_variable(rtl_name, ctx.depth, value);
+                delayed_var.ns_id = ns->id;
+                delayed_variables_.emplace(key, delayed_var);
             }
         }
     }
diff --git a/src/debug.hh b/src/debug.hh
index 29e2fe4..2ee81b8 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -86,8 +86,10 @@ private:
         std::string rtl_name;
         std::optional<int64_t> value;
         uint64_t watch_id;
+        uint32_t ns_id;
     };
-    std::unordered_map<vpiHandle, DelayedVariable> delayed_variables_;
+    // the same signal can be delayed by different number of cycles
+    std::map<std::pair<vpiHandle, uint32_t>, DelayedVariable> delayed_variables_;
 
     // options
     // if in single thread mode, instances with the same fn/ln won't be evaluated as a batch
@@ -123,7 +125,7 @@ private:
     bool has_cli_flag(const std::string &flag);
     [[nodiscard]] static std::string get_monitor_topic(uint64_t watch_id);
     std::string get_value_str(uint32_t ns_id, const std::string &rtl_name, bool is_rtl,
-                              bool use_delay = false);
+                              std::optional<uint32_t> delay = std::nullopt);
     std::optional<std::string> resolve_var_name(uint32_t ns_id, const std::string &var_name,
                                                 const std::optional<uint64_t> &instance_id,
                                                 const std::optional<uint64_t> &breakpoint_id);
@@ -167,8 +169,7 @@ private:
     void start_breakpoint_evaluation();
 
     // cached wrapper
-    std::optional<int64_t> get_signal_value(uint32_t ns_id, vpiHandle handle,
-                                            bool use_delayed = false);
+    std::optional<int64_t> get_signal_value(uint32_t ns_id, vpiHandle handle);
     void clear_signal_cache();
     void clear_signal_cache(bool valid);
     std::string get_full_name(uint32_t ns_id, uint64_t instance_id, const std::string &var_name);
diff --git a/src/monitor.cc b/src/monitor.cc
index 3a188a7..2a38eca 100644
--- a/src/monitor.cc
+++ b/src/monitor.cc
@@ -109,7 +109,7 @@ std::vector<std::pair<uint64_t, std::optional<int64_t>>> Monitor::get_watched_va
                 // we assume this will be called every clock cycle
                 auto new_value = rtl_->get_value(watch_var->handle);
                 // we use the old value
-                auto old_value = *watch_var->get_value();
+                auto old_value = watch_var->get_value();
                 watch_var->set_value(new_value);
                 result.emplace_back(std::make_pair(watch_id, old_value));
             }
-- 
2.43.0


From 378105cb73edc9abaf4670d997f1409ea3eb74b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:32 +0000
Subject: [PATCH 26/78] fix: a name that doesn't exist resolves to the module
 that should contain it

Also remember handles found the hard way under the name they are looked up with.
---
 src/rtl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 0ebcd2a..818046c 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -169,7 +169,7 @@ vpiHandle RTLSimulatorClient::get_handle(const std::string &name) {
             // deal with verilator. remove []
             auto tokens = util::get_tokens(full_name, ".[]");
             ptr = get_handle(tokens);
-            if (ptr) handle_map_.emplace(name, ptr);
+            if (ptr) handle_map_.emplace(full_name, ptr);
         }
         return ptr;
     }
@@ -212,6 +212,8 @@ vpiHandle RTLSimulatorClient::get_handle(const std::vector<std::string> &tokens)
                         ptr = access_arrays(pos, tokens.begin() + array_size_end + 1, ptr);
                         break;
                     }
+                    // the module doesn't have it
+                    ptr = nullptr;
                 }
             }
         }
-- 
2.43.0


From 2cbb72213dd87d4762177232eeace242cc9fbb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:32 +0000
Subject: [PATCH 27/78] fix: names with a huge array index or nothing but a
 slice take the simulator down

std::stoi throws on the former, util::join never ends on the latter.
---
 src/rtl.cc  | 6 ++++--
 src/util.hh | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 818046c..6a0912c 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -245,8 +245,10 @@ vpiHandle RTLSimulatorClient::access_arrays(StringIterator begin, StringIterator
         if (!std::all_of(idx.begin(), idx.end(), ::isdigit)) {
             return nullptr;
         }
-        auto index_value = std::stoi(idx);
-        var_handle = vpi_->vpi_handle_by_index(var_handle, index_value);
+        auto index_value = util::stoul(idx);
+        if (!index_value || *index_value > std::numeric_limits<PLI_INT32>::max()) return nullptr;
+        var_handle =
+            vpi_->vpi_handle_by_index(var_handle, static_cast<PLI_INT32>(*index_value));
         if (!var_handle) return nullptr;
         it++;
     }
diff --git a/src/util.hh b/src/util.hh
index 590c11d..5e00270 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -18,6 +18,7 @@ std::string join(T begin, T end, const std::string &sep) {
     // more efficient way will be using ostream_joiner,
     // but it is still experimental
     auto it = begin;
+    if (it == end) return {};
     stream << *it;
     it++;
     while (it != end) {
-- 
2.43.0


From 7348765036fcf8a2d1901e5d74a9754653d2549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:32 +0000
Subject: [PATCH 28/78] fix: bit slices read the wrong bits and hand made-up
 handles to the simulator

The string form always started from the most significant bit, a slice up to bit 63
read as zero, and type and width of a slice were asked from the simulator.
---
 src/rtl.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 6a0912c..68d5509 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -259,8 +259,9 @@ int64_t get_slice(int64_t value, const std::tuple<vpiHandle, uint32_t, uint32_t>
     // notice that hi and lo are inclusive
     auto [parent, hi, lo] = info;
     auto v = static_cast<uint64_t>(value);
-    auto hi_mask = ~(std::numeric_limits<uint64_t>::max() << (hi + 1));
-    v = v & hi_mask;
+    // shifting by the width of the type or more is undefined
+    if (lo >= 64) return 0;
+    if (hi < 63) v = v & ~(std::numeric_limits<uint64_t>::max() << (hi + 1));
     v = v >> lo;
     return static_cast<int64_t>(v);
 }
@@ -329,12 +330,12 @@ std::string get_slice(const std::string &value,
     auto [parent, hi, lo] = info;
     // notice that it's in reverse order!
     // hi and lo are inclusive as in RTL
-    if (lo > value.size() - 1) {
+    if (lo >= value.size()) {
         return "0";
     }
 
-    auto pos = std::min<uint32_t>(value.size() - hi - 1, 0);
-    auto lo_pos = std::max<uint32_t>(value.size() - lo - 1, 0);
+    auto pos = hi < value.size() ? value.size() - hi - 1 : 0;
+    auto lo_pos = value.size() - lo - 1;
     auto result = value.substr(pos, lo_pos - pos + 1);
     // now we have binary result, need to convert it into hex
     // pad string to multiple of 4
@@ -983,7 +984,10 @@ PLI_INT32 RTLSimulatorClient::get_vpi_type(vpiHandle handle) {
     if (cached_vpi_types_.find(handle) != cached_vpi_types_.end()) [[likely]] {
         return cached_vpi_types_.at(handle);
     } else {
-        auto t = vpi_->vpi_get(vpiType, handle);
+        // the simulator doesn't know about our slices
+        auto t = mock_slice_handles_.find(handle) != mock_slice_handles_.end()
+                     ? vpiPartSelect
+                     : vpi_->vpi_get(vpiType, handle);
         cached_vpi_types_.emplace(handle, t);
         return t;
     }
@@ -991,6 +995,10 @@ PLI_INT32 RTLSimulatorClient::get_vpi_type(vpiHandle handle) {
 
 uint32_t RTLSimulatorClient::get_vpi_size(vpiHandle handle) {
     if (!handle) return 0;
+    // the simulator doesn't know about our slices
+    if (auto it = mock_slice_handles_.find(handle); it != mock_slice_handles_.end()) {
+        return std::get<1>(it->second) - std::get<2>(it->second) + 1;
+    }
     std::lock_guard guard(cached_vpi_size_lock_);
     if (cached_vpi_size_.find(handle) != cached_vpi_size_.end()) [[likely]] {
         return cached_vpi_size_.at(handle);
-- 
2.43.0


From 517a7f4a7eb29963b135cf3d1462d811825029fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:32 +0000
Subject: [PATCH 29/78] fix: consecutive $parent in a variable's path only go
 up one level

---
 src/rtl.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 68d5509..ae751c4 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -569,17 +569,14 @@ std::string resolve_rtl_path(const std::string &path) {
         return path;
     }
 
-    auto tokens = util::get_tokens(path, ".");
-    for (auto i = 1u; i < tokens.size(); i++) {
-        if (tokens[i] == "$parent") {
-            tokens[i] = "";
-            tokens[i - 1] = "";
+    std::vector<std::string> tokens;
+    for (auto const &token : util::get_tokens(path, ".")) {
+        if (token == "$parent" && !tokens.empty()) {
+            tokens.pop_back();
+        } else {
+            tokens.emplace_back(token);
         }
     }
-    // filter empty ones
-    tokens.erase(
-        std::remove_if(tokens.begin(), tokens.end(), [](auto const &s) { return s.empty(); }),
-        tokens.end());
     auto res = fmt::format("{0}", fmt::join(tokens.begin(), tokens.end(), "."));
     return res;
 }
-- 
2.43.0


From 04844eb4bdf0d3ea8a836a93f957b5d0e856a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:32 +0000
Subject: [PATCH 30/78] fix: the design is mapped below its top if only child
 instances are known

Without definition names the prefix included the first level of the matched path, and
short hierarchy names were read out of bounds.
---
 src/rtl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index ae751c4..24fb74a 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -745,7 +745,7 @@ std::pair<bool, std::string> match(const std::string &full_name,
     auto full_tokens = util::get_tokens(full_name, ".");
     // the test bench should contain the top, as a result, the full token should be
     // at least + 1
-    if (full_tokens.size() < (tokens.size() - 1)) return false_;
+    if (full_tokens.size() < (tokens.size() + 1)) return false_;
 
     for (auto i = 0u; i < tokens.size(); i++) {
         auto const &t_value = tokens[tokens.size() - 1 - i];
@@ -754,7 +754,7 @@ std::pair<bool, std::string> match(const std::string &full_name,
     }
 
     // compute the prefix
-    auto size_diff = static_cast<uint32_t>(full_tokens.size() - tokens.size()) + 1;
+    auto size_diff = static_cast<uint32_t>(full_tokens.size() - tokens.size());
     auto prefix =
         fmt::format("{0}.", fmt::join(full_tokens.begin(), full_tokens.begin() + size_diff, "."));
 
-- 
2.43.0


From ffc1646b56a69b7c046207a1d33137ce9f36654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:32 +0000
Subject: [PATCH 31/78] fix: every connection adds the design's namespaces
 again

Breakpoints were then inserted, evaluated and reported several times.
---
 src/debug.cc     | 6 ++++++
 src/namespace.cc | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index 73d579c..e7dd9c0 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -49,6 +49,12 @@ bool Debugger::initialize_db(const std::string &filename) {
 void Debugger::initialize_db(std::unique_ptr<SymbolTableProvider> db) {
     // keep what we have if there is nothing to replace it with
     if (!db) return;
+    // breakpoints are gone together with the old scheduler. no need to watch the data
+    if (scheduler_) {
+        for (auto const &[ns_id, watch_id] : scheduler_->clear_data_breakpoints()) {
+            namespaces_[ns_id]->monitor->remove_monitor_variable(watch_id);
+        }
+    }
     // reset db_ for every new connection
     db_ = std::move(db);
 
diff --git a/src/namespace.cc b/src/namespace.cc
index 5a8ce9a..7234510 100644
--- a/src/namespace.cc
+++ b/src/namespace.cc
@@ -33,7 +33,8 @@ void DebuggerNamespaceManager::compute_instance_mapping(SymbolTableProvider *db)
     auto mapping =
         default_rtl()->compute_instance_mapping(instances, default_rtl()->vpi()->has_defname());
 
-    for (auto i = 1u; i < mapping.size(); i++) {
+    // reuse the namespaces if it's computed before, e.g. from another connection
+    while (namespaces_.size() < mapping.size()) {
         add_namespace(default_rtl()->vpi());
     }
 
@@ -41,10 +42,16 @@ void DebuggerNamespaceManager::compute_instance_mapping(SymbolTableProvider *db)
         namespaces_[i]->rtl->set_mapping(mapping[i].first, mapping[i].second);
         namespaces_[i]->def_name = mapping[i].first;
     }
+    // the rest, if any, is not part of the design anymore
+    for (auto i = mapping.size(); i < namespaces_.size(); i++) {
+        namespaces_[i]->rtl->set_mapping("", "");
+        namespaces_[i]->def_name.clear();
+    }
     compute_mapping();
 }
 
 void DebuggerNamespaceManager::compute_mapping() {
+    mapped_namespaces_.clear();
     for (auto &ns : namespaces_) {
         mapped_namespaces_[ns->def_name].emplace_back(ns.get());
     }
-- 
2.43.0


From be85a5b182227781e3080f9116de6f38ad0c08fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:37 +0000
Subject: [PATCH 32/78] fix: symbol table answers don't survive the network
 encoding

---
 src/proto.cc  | 63 ++++++++++++++++++++++++++++++++-------------------
 src/symbol.cc |  2 ++
 2 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 6e8d5e3..4bd66e1 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -318,16 +318,29 @@ void set_member(K &v, A &allocator, const T &value) {
         set_member(v, allocator, "is_rtl", value.is_rtl);
     } else if constexpr (std::is_same<T, std::pair<ContextVariable, Variable>>::value) {
         auto const &[context, var] = value;
-        set_member(v, allocator, "name", context.name);
-        set_member(v, allocator, "breakpoint_id", *context.breakpoint_id);
-        set_member(v, allocator, "variable_id", *context.variable_id);
-        set_member(v, allocator, var);
+        rapidjson::Value context_v(rapidjson::kObjectType), var_v(rapidjson::kObjectType);
+        set_member(context_v, allocator, "name", context.name);
+        if (context.breakpoint_id)
+            set_member(context_v, allocator, "breakpoint_id", *context.breakpoint_id);
+        if (context.variable_id)
+            set_member(context_v, allocator, "variable_id", *context.variable_id);
+        set_member(context_v, allocator, "type", context.type);
+        set_member(context_v, allocator, "depth", context.depth);
+        set_member(var_v, allocator, var);
+        v.SetArray();
+        v.PushBack(context_v.Move(), allocator);
+        v.PushBack(var_v.Move(), allocator);
     } else if constexpr (std::is_same<T, std::pair<GeneratorVariable, Variable>>::value) {
         auto const &[gen, var] = value;
-        set_member(v, allocator, "name", gen.name);
-        set_member(v, allocator, "instance_id", *gen.instance_id);
-        set_member(v, allocator, "variable_id", *gen.variable_id);
-        set_member(v, allocator, var);
+        rapidjson::Value gen_v(rapidjson::kObjectType), var_v(rapidjson::kObjectType);
+        set_member(gen_v, allocator, "name", gen.name);
+        if (gen.instance_id) set_member(gen_v, allocator, "instance_id", *gen.instance_id);
+        if (gen.variable_id) set_member(gen_v, allocator, "variable_id", *gen.variable_id);
+        set_member(gen_v, allocator, "annotation", gen.annotation);
+        set_member(var_v, allocator, var);
+        v.SetArray();
+        v.PushBack(gen_v.Move(), allocator);
+        v.PushBack(var_v.Move(), allocator);
     } else if constexpr (std::is_same<T, std::tuple<uint32_t, std::string, std::string>>::value) {
         set_member(v, allocator, "id", std::get<0>(value));
         set_member(v, allocator, "var", std::get<1>(value));
@@ -348,7 +361,8 @@ void set_member(K &v, A &allocator, const T &value) {
             entry_v.SetString(entry.c_str(), entry.size(), allocator);
             v.PushBack(entry_v.Move(), allocator);
         }
-    } else if constexpr (std::is_same<T, std::vector<uint64_t>>::value) {
+    } else if constexpr (std::is_same<T, std::vector<uint64_t>>::value ||
+                         std::is_same<T, std::vector<uint32_t>>::value) {
         for (auto const entry : value) {
             rapidjson::Value entry_v(rapidjson::kNumberType);
             entry_v.SetUint64(entry);
@@ -1381,10 +1395,11 @@ std::optional<ContextVariable> parse_context_variable(const rapidjson::Value &va
 
     if (!get_value(value, "name", v.name)) return std::nullopt;
     uint32_t id;
-    if (!get_value(value, "breakpoint_id", id)) return std::nullopt;
-    v.breakpoint_id = std::make_unique<uint32_t>(id);
-    if (!get_value(value, "variable_id", id)) return std::nullopt;
-    v.variable_id = std::make_unique<uint32_t>(id);
+    if (get_value(value, "breakpoint_id", id)) v.breakpoint_id = std::make_unique<uint32_t>(id);
+    if (get_value(value, "variable_id", id)) v.variable_id = std::make_unique<uint32_t>(id);
+    // type and depth are optional
+    get_value(value, "type", v.type);
+    get_value(value, "depth", v.depth);
 
     return std::move(v);
 }
@@ -1394,10 +1409,8 @@ std::optional<GeneratorVariable> parse_generator_variable(const rapidjson::Value
 
     if (!get_value(value, "name", v.name)) return std::nullopt;
     uint32_t id;
-    if (!get_value(value, "instance_id", id)) return std::nullopt;
-    v.instance_id = std::make_unique<uint32_t>(id);
-    if (!get_value(value, "variable_id", id)) return std::nullopt;
-    v.variable_id = std::make_unique<uint32_t>(id);
+    if (get_value(value, "instance_id", id)) v.instance_id = std::make_unique<uint32_t>(id);
+    if (get_value(value, "variable_id", id)) v.variable_id = std::make_unique<uint32_t>(id);
     // annotation is optional
     get_value(value, "annotation", v.annotation);
 
@@ -1411,7 +1424,7 @@ void SymbolResponse::parse(const std::string &str) {
     document.Parse(str.c_str());
     if (document.HasParseError()) return;
 
-    if (!document.HasMember("result")) return;
+    if (!document.IsObject() || !document.HasMember("result")) return;
     auto const &result = document["result"];
 
     // we ignore type since it's a single thread model
@@ -1438,7 +1451,7 @@ void SymbolResponse::parse(const std::string &str) {
             break;
         }
         case SymbolRequest::request_type::get_instance_id: {
-            if (!result.IsNumber()) return;
+            if (!result.IsUint64()) return;
             uint64_t_result = result.GetUint64();
             break;
         }
@@ -1486,7 +1499,7 @@ void SymbolResponse::parse(const std::string &str) {
         case SymbolRequest::request_type::get_execution_bp_orders: {
             if (!result.IsArray()) return;
             for (auto const &entry : result.GetArray()) {
-                if (!entry.IsNumber()) return;
+                if (!entry.IsUint()) return;
                 uint64_t_results.emplace_back(entry.GetUint64());
             }
             break;
@@ -1500,10 +1513,10 @@ void SymbolResponse::parse(const std::string &str) {
                 std::optional<uint32_t> breakpoint_id;
                 std::optional<std::string> var_name, condition;
                 for (auto const &[key, value] : entry.GetObject()) {
-                    if ((key == "id" || key == "breakpoint_id") && value.IsNumber()) {
-                        breakpoint_id = value.GetUint64();
+                    if ((key == "id" || key == "breakpoint_id") && value.IsUint()) {
+                        breakpoint_id = value.GetUint();
                     } else if ((key == "var" || key == "value" || key == "var_name" ||
-                                key == "variable_name") ||
+                                key == "variable_name") &&
                                value.IsString()) {
                         var_name = value.GetString();
                     } else if ((key == "condition" || key == "cond") && value.IsString()) {
@@ -1531,6 +1544,8 @@ std::string SymbolResponse::str(bool pretty_print) const {
 
     switch (type_) {
         case SymbolRequest::request_type::get_breakpoint: {
+            // null if there is none
+            if (!bp_result) break;
             result = Value(kObjectType);
             set_member(result, allocator, *bp_result);
             break;
@@ -1541,6 +1556,7 @@ std::string SymbolResponse::str(bool pretty_print) const {
             break;
         }
         case SymbolRequest::request_type::get_instance_name: {
+            if (!str_result) break;
             result = Value(kStringType);
             result.SetString(str_result->c_str(), str_result->size());
             break;
@@ -1556,6 +1572,7 @@ std::string SymbolResponse::str(bool pretty_print) const {
             break;
         }
         case SymbolRequest::request_type::get_instance_id: {
+            if (!uint64_t_result) break;
             result = Value(kNumberType);
             result.SetUint64(*uint64_t_result);
             break;
diff --git a/src/symbol.cc b/src/symbol.cc
index 0a6d542..bd341fa 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -374,6 +374,8 @@ public:
     }
 
     std::optional<uint64_t> get_instance_id(const std::string &instance_name) override {
+        // every instance has a name
+        if (instance_name.empty()) return std::nullopt;
         SymbolRequest req(SymbolRequest::request_type::get_instance_id);
         req.instance_name = instance_name;
 
-- 
2.43.0


From 0d03384c4842d3b28b9577d7373a35383b1d777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:06 +0000
Subject: [PATCH 33/78] fix: deeply nested json requests overflow the stack

---
 src/proto.cc | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/proto.cc b/src/proto.cc
index 4bd66e1..40c3466 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -700,8 +700,33 @@ std::string MonitorResponse::str(bool pretty_print) const {
     return to_string(document, pretty_print);
 }
 
+// the json parser is recursive. none of the requests needs more than a couple of levels
+bool exceeds_json_depth(const std::string &str) {
+    constexpr auto max_depth = 256u;
+    auto depth = 0u;
+    bool in_string = false;
+    for (auto i = 0u; i < str.size(); i++) {
+        auto const c = str[i];
+        if (in_string) {
+            if (c == '\\') {
+                i++;
+            } else if (c == '"') {
+                in_string = false;
+            }
+        } else if (c == '"') {
+            in_string = true;
+        } else if (c == '[' || c == '{') {
+            if (++depth > max_depth) return true;
+        } else if ((c == ']' || c == '}') && depth > 0) {
+            depth--;
+        }
+    }
+    return false;
+}
+
 std::unique_ptr<Request> Request::parse_request(const std::string &str) {
     using namespace rapidjson;
+    if (exceeds_json_depth(str)) return std::make_unique<ErrorRequest>("Invalid json object");
     Document document;
     document.Parse(str.c_str());
 
-- 
2.43.0


From 0aa1204ce21ac171a0c077312aeb129e90a54fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:06 +0000
Subject: [PATCH 34/78] fix: names and constants made of many or no digits
 abort the process

---
 src/proto.cc  | 11 +++++++----
 src/symbol.cc |  6 +++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 40c3466..92b70c8 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -516,10 +516,13 @@ bool BreakPointResponse::LocalVarNameCompare::operator()(const std::string &var1
 
             if (std::all_of(t1.begin(), t1.end(), ::isdigit) &&
                 std::all_of(t2.begin(), t2.end(), ::isdigit)) {
-                auto v1 = std::stoul(t1);
-                auto v2 = std::stoul(t2);
-                if (v1 != v2) {
-                    return v1 < v2;
+                // the index can be larger than what an integer can hold
+                auto const v1 = t1.substr(std::min(t1.find_first_not_of('0'), t1.size()));
+                auto const v2 = t2.substr(std::min(t2.find_first_not_of('0'), t2.size()));
+                if (v1.size() != v2.size()) {
+                    return v1.size() < v2.size();
+                } else if (v1 != v2) {
+                    return v1 < v2;  // NOLINT
                 }
             } else if (t1 != t2) {
                 // for some reason clang-tidy wants us to use nullptr here
diff --git a/src/symbol.cc b/src/symbol.cc
index bd341fa..ddc72d4 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -111,7 +111,7 @@ std::optional<uint32_t> parse_depth(const std::string &name) {
         return std::nullopt;
     auto end_pos = name.find_first_of('.');
     if (end_pos != std::string::npos) {
-        auto int_str = name.substr(depth_str.size(), end_pos);
+        auto int_str = name.substr(depth_str.size(), end_pos - depth_str.size());
         auto v = util::stoul(int_str);
         if (v) {
             return static_cast<uint32_t>(*v);
@@ -174,8 +174,8 @@ std::unordered_map<std::string, int64_t> SymbolTableProvider::get_context_static
         auto const &[ctx, var] = *it;
         if (!var.is_rtl) {
             if (std::all_of(var.value.begin(), var.value.end(), ::isdigit)) {
-                auto v = std::stoll(var.value);
-                result.emplace(ctx.name, v);
+                // empty if there is no digit or too many
+                if (auto v = util::stoul(var.value)) result.emplace(ctx.name, *v);
             }
         }
     }
-- 
2.43.0


From 11245f6b1c8d78d36b6318bf4a1f574ab3601900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:13 +0000
Subject: [PATCH 35/78] fix: unreachable or closed remote symbol tables hang or
 crash, tcp ones never work

---
 src/symbol.cc | 48 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index ddc72d4..579ed7c 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -8,6 +8,7 @@
 #include "eval.hh"
 #include "log.hh"
 #include "proto.hh"
+#include "rapidjson/document.h"
 #include "thread.hh"
 #include "util.hh"
 #include "websocketpp/client.hpp"
@@ -223,6 +224,12 @@ public:
     bool has_error = false;
 };
 
+static bool is_json(const std::string &str) {
+    rapidjson::Document document;
+    document.Parse(str.c_str());
+    return !document.HasParseError();
+}
+
 class TCPNetworkProvider : public NetworkProvider {
 public:
     TCPNetworkProvider(const std::string &hostname, uint16_t port) {
@@ -236,15 +243,21 @@ public:
             has_error = true;
         }
     }
-    void send(const std::string &msg) override { asio::write(*s_, asio::buffer(msg)); }
+    void send(const std::string &msg) override {
+        std::error_code ec;
+        asio::write(*s_, asio::buffer(msg), ec);
+    }
 
     std::string receive() override {
-        asio::mutable_buffer buff;
-        asio::read(*s_, buff);
-        // assume it's well-formed
-        // and in ascii
-        std::string_view data(reinterpret_cast<char *>(buff.data()), buff.size());
-        return std::string(data);
+        // an answer is a single json document
+        std::string result;
+        std::array<char, 4096> buff = {};
+        std::error_code ec;
+        do {
+            auto const size = s_->read_some(asio::buffer(buff), ec);
+            result.append(buff.data(), size);
+        } while (!ec && !is_json(result));
+        return result;
     }
 
     ~TCPNetworkProvider() override = default;
@@ -278,6 +291,16 @@ public:
 
         client_->set_open_handler(on_open);
 
+        // no need to wait for somebody who's not there
+        client_->set_fail_handler([this, &l](const websocketpp::connection_hdl &) {
+            has_error = true;
+            l.ready();
+        });
+        client_->set_close_handler([this](const websocketpp::connection_hdl &) {
+            closed_ = true;
+            has_message_.ready();
+        });
+
         websocketpp::lib::error_code ec;
         Client::connection_ptr con = client_->get_connection(uri, ec);
         if (ec) {
@@ -304,13 +327,14 @@ public:
 
     std::string receive() override {
         std::lock_guard guard(lock);
-        has_message_.wait();
-        return payload_;
+        if (!closed_) has_message_.wait();
+        // nothing if the other side is gone
+        return std::exchange(payload_, {});
     }
 
     ~WSNetworkProvider() override {
         client_->stop();
-        bg_client_thread_.join();
+        if (bg_client_thread_.joinable()) bg_client_thread_.join();
     }
 
 private:
@@ -322,6 +346,7 @@ private:
     std::mutex lock;
     RuntimeLock has_message_;
     std::string payload_;
+    std::atomic<bool> closed_ = false;
 
     std::thread bg_client_thread_;
     websocketpp::connection_hdl connection_handle_;
@@ -505,7 +530,8 @@ std::unique_ptr<SymbolTableProvider> create_symbol_table(const std::string &file
             log::log(log::log_level::error, "Invalid TCP port number " + tokens.back());
             return nullptr;
         }
-        auto hostname = tokens[1];
+        // skip the slashes
+        auto hostname = tokens[1].substr(2);
         auto tcp = std::make_unique<TCPNetworkProvider>(hostname, *port);
         if (tcp->has_error) {
             log::log(log::log_level::error, "Invalid TCP UTI " + filename);
-- 
2.43.0


From 0cac1acc4ad74a822da162602f71897072418b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:13 +0000
Subject: [PATCH 36/78] fix: an invalid json symbol table is accepted as an
 empty one

---
 src/db.cc     | 5 +++++
 src/symbol.cc | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/db.cc b/src/db.cc
index b44e6c7..217585e 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1101,6 +1101,11 @@ JSONSymbolTableProvider::JSONSymbolTableProvider(const std::string &filename) {
         roots_ = db::json::parse(document, info);
 
         reordering_ = reordering(document);
+        if (!info.error_reason.empty()) {
+            // we have an error
+            log::log(log::log_level::error, info.error_reason);
+            roots_.clear();
+        }
     }
     parse_db();
 }
diff --git a/src/symbol.cc b/src/symbol.cc
index 579ed7c..e6fc452 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -559,7 +559,12 @@ std::unique_ptr<SymbolTableProvider> create_symbol_table(const std::string &file
                 return std::make_unique<DBSymbolTableProvider>(filename);
             }
             case FileType::JSON: {
-                return std::make_unique<JSONSymbolTableProvider>(filename);
+                auto db = std::make_unique<JSONSymbolTableProvider>(filename);
+                if (db->bad()) {
+                    log::log(log::log_level::error, "Invalid symbol table file " + filename);
+                    return nullptr;
+                }
+                return db;
             }
             default: {
                 // invalid file
-- 
2.43.0


From e00e7b343552f0be7d888bcdf5426a6145855fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:51 +0000
Subject: [PATCH 37/78] fix: a symbol table without execution order crashes the
 scheduler

---
 src/scheduler.cc | 16 +++++++++++-----
 src/scheduler.hh |  1 +
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 23c74b1..9a656da 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -82,7 +82,13 @@ void clear_breakpoints(std::vector<std::unique_ptr<DebugBreakPoint>> &breakpoint
 
 std::optional<uint64_t> Scheduler::current_order() const {
     if (!current_breakpoint_id_) return std::nullopt;
-    return bp_ordering_table_.at(*current_breakpoint_id_);
+    return order_of(*current_breakpoint_id_);
+}
+
+uint64_t Scheduler::order_of(uint32_t id) const {
+    auto const pos = bp_ordering_table_.find(id);
+    // providing the execution order is optional, e.g. from a remote symbol table
+    return pos != bp_ordering_table_.end() ? pos->second : bp_ordering_.size() + id;
 }
 
 std::vector<DebugBreakPoint *> Scheduler::next_normal_breakpoints() {
@@ -100,7 +106,7 @@ std::vector<DebugBreakPoint *> Scheduler::next_normal_breakpoints() {
     auto const order = current_order();
     while (index < breakpoints_.size() &&
            (breakpoints_[index]->evaluated ||
-            (order && bp_ordering_table_.at(breakpoints_[index]->id) < *order))) {
+            (order && order_of(breakpoints_[index]->id) < *order))) {
         index++;
     }
     // the end
@@ -128,7 +134,7 @@ std::vector<DebugBreakPoint *> Scheduler::next_normal_breakpoints() {
 
 std::vector<DebugBreakPoint *> Scheduler::next_step_back_breakpoints() {
     std::optional<uint32_t> next_breakpoint_id;
-    if (!current_breakpoint_id_) [[unlikely]] {
+    if (!current_breakpoint_id_ || bp_ordering_.empty()) [[unlikely]] {
         // can't roll back if the current breakpoint id is not set
         return {};
     } else {
@@ -174,7 +180,7 @@ std::vector<DebugBreakPoint *> Scheduler::next_reverse_breakpoints() {
     auto const order = current_order();
     for (auto i = breakpoints_.size(); i > 0 && !target_index; i--) {
         auto const &bp = breakpoints_[i - 1];
-        if (!bp->evaluated && (!order || bp_ordering_table_.at(bp->id) <= *order)) {
+        if (!bp->evaluated && (!order || order_of(bp->id) <= *order)) {
             target_index = i - 1;
         }
     }
@@ -476,7 +482,7 @@ void Scheduler::reorder_breakpoints() {
     // bug-prone
     std::sort(breakpoints_.begin(), breakpoints_.end(),
               [this](const auto &left, const auto &right) -> bool {
-                  return bp_ordering_table_.at(left->id) < bp_ordering_table_.at(right->id);
+                  return order_of(left->id) < order_of(right->id);
               });
 }
 
diff --git a/src/scheduler.hh b/src/scheduler.hh
index d1b9f4c..983f825 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -114,6 +114,7 @@ private:
 
     // position of the current breakpoint in the execution order, if any
     [[nodiscard]] std::optional<uint64_t> current_order() const;
+    [[nodiscard]] uint64_t order_of(uint32_t id) const;
     std::vector<DebugBreakPoint *> create_next_breakpoints(
         const std::optional<BreakPoint> &bp_info);
     std::vector<std::unique_ptr<DebugBreakPoint>> remove_breakpoints(
-- 
2.43.0


From 5a04995ab699eb3cb002b10b3612f1d7e11d0605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:51 +0000
Subject: [PATCH 38/78] fix: the python symbol table never answers the
 execution order

---
 bindings/python/hgdb/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/hgdb/symbol.py b/bindings/python/hgdb/symbol.py
index 95dd6e8..b0f1e71 100644
--- a/bindings/python/hgdb/symbol.py
+++ b/bindings/python/hgdb/symbol.py
@@ -71,7 +71,7 @@ class SymbolTableProvider:
                 resp = self.get_annotation_values(payload["name"])
             elif req_type == "get_all_array_names":
                 resp = self.get_all_array_names()
-            elif req_type == "execution_bp_orders":
+            elif req_type == "get_execution_bp_orders":
                 resp = self.execution_bp_orders()
 
             await self.__send_resp(websocket, resp)
-- 
2.43.0


From e09a19a898fdbedaa341514f101bde23f3bfb7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:22 +0000
Subject: [PATCH 39/78] fix: removing a monitor by id can remove the watch of a
 data breakpoint

---
 src/debug.cc   | 6 ++++++
 src/monitor.cc | 5 +++++
 src/monitor.hh | 1 +
 3 files changed, 12 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index e7dd9c0..fdcaf8c 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -962,6 +962,12 @@ void Debugger::handle_monitor(const MonitorRequest &req, uint64_t conn_id) {
         } else {
             // it's remove
             auto track_id = req.track_id();
+            // data breakpoints and delayed variables have watches as well
+            if (monitor.is_watched(track_id, MonitorRequest::MonitorType::data) ||
+                monitor.is_watched(track_id, MonitorRequest::MonitorType::delay_clock_edge)) {
+                send_error(req, "Invalid track_id", conn_id);
+                return;
+            }
             monitor.remove_monitor_variable(track_id);
 
             // remove topics
diff --git a/src/monitor.cc b/src/monitor.cc
index 2a38eca..031d892 100644
--- a/src/monitor.cc
+++ b/src/monitor.cc
@@ -64,6 +64,11 @@ std::optional<uint64_t> Monitor::is_monitored(vpiHandle handle, WatchType watch_
     return std::nullopt;
 }
 
+bool Monitor::is_watched(uint64_t id, WatchType watch_type) const {
+    auto const pos = watched_variables_.find(id);
+    return pos != watched_variables_.end() && pos->second->type == watch_type;
+}
+
 std::shared_ptr<std::optional<int64_t>> Monitor::get_watched_value_ptr(
     const std::unordered_set<std::string>& var_names, WatchType type) const {
     for (auto const& [id, var] : watched_variables_) {
diff --git a/src/monitor.hh b/src/monitor.hh
index a6365f3..9867801 100644
--- a/src/monitor.hh
+++ b/src/monitor.hh
@@ -26,6 +26,7 @@ public:
     void remove_monitor_variable(uint64_t watch_id);
     [[nodiscard]] std::optional<uint64_t> is_monitored(vpiHandle handle,
                                                        WatchType watch_type) const;
+    [[nodiscard]] bool is_watched(uint64_t id, WatchType watch_type) const;
     void set_monitor_variable_condition(uint64_t id, std::function<bool()> cond);
     [[nodiscard]] std::shared_ptr<std::optional<int64_t>> get_watched_value_ptr(
         const std::unordered_set<std::string>& var_names, WatchType type) const;
-- 
2.43.0


From b4d67770e14890b4da69afb987b0e4be3d186559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:39 +0000
Subject: [PATCH 40/78] fix: a shadowed constant overrides the latest
 declaration of its name in expressions

---
 src/symbol.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index e6fc452..a39f631 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -1,5 +1,6 @@
 #include "symbol.hh"
 
+#include <unordered_set>
 #include <filesystem>
 #include <mutex>
 
@@ -170,10 +171,12 @@ std::unordered_map<std::string, int64_t> SymbolTableProvider::get_context_static
     auto vars = get_context_variables(breakpoint_id);
     std::unordered_map<std::string, int64_t> result;
 
+    // only the latest declaration of a name is visible
+    std::unordered_set<std::string> names;
     // NOLINTNEXTLINE
     for (auto it = vars.rbegin(); it != vars.rend(); it++) {
         auto const &[ctx, var] = *it;
-        if (!var.is_rtl) {
+        if (names.emplace(ctx.name).second && !var.is_rtl) {
             if (std::all_of(var.value.begin(), var.value.end(), ::isdigit)) {
                 // empty if there is no digit or too many
                 if (auto v = util::stoul(var.value)) result.emplace(ctx.name, *v);
-- 
2.43.0


From 2531e6f2a9a65618fabaecad2355589761f76b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:39 +0000
Subject: [PATCH 41/78] fix: a signal whose name starts with its instance's
 name is looked up outside of it

---
 src/symbol.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index a39f631..c940d45 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -68,7 +68,7 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_breakpoint(
         auto const &[ctx, var] = *it;
         if (rtl_equivalent(ctx.name, scoped_name) || var.value == scoped_name) {
             if (var.is_rtl) {
-                if (var.value.starts_with(*inst_name)) {
+                if (var.value.starts_with(*inst_name + ".")) {
                     return var.value;
                 } else {
                     return fmt::format("{0}.{1}", *inst_name, var.value);
@@ -89,7 +89,7 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_instance(
     for (auto const &[gen, var] : vars) {
         if (rtl_equivalent(gen.name, scoped_name) || var.value == scoped_name) {
             if (var.is_rtl) {
-                if (var.value.starts_with(*inst_name)) {
+                if (var.value.starts_with(*inst_name + ".")) {
                     return var.value;
                 } else {
                     return fmt::format("{0}.{1}", *inst_name, var.value);
-- 
2.43.0


From abd4467bc52b7ccce8d2deeed5565ad439b0e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:39 +0000
Subject: [PATCH 42/78] fix: evaluation ignores the requested namespace without
 an instance or breakpoint

---
 src/debug.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index fdcaf8c..f352f8b 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -874,9 +874,9 @@ void Debugger::handle_evaluation(const EvaluationRequest &req, uint64_t conn_id)
 
         if (!ns) ns = namespaces_.default_namespace();
 
-        // if we don't have any breakpoint id and instance id provided
+        // if we don't have any breakpoint id, instance id, or namespace id provided
         // it's free for all
-        if (req.instance_id() || req.breakpoint_id()) {
+        if (req.instance_id() || req.breakpoint_id() || req.namespace_id()) {
             util::validate_expr(ns->rtl.get(), db_.get(), &expr, req.breakpoint_id(),
                                 req.instance_id());
         } else {
-- 
2.43.0


From 78c1b991bba658f6985539c4fc789cc287ef4793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 43/78] fix: constants are looked up in the design when
 reporting a stop

---
 src/debug.cc  | 9 +++++++++
 src/symbol.cc | 6 +++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index f352f8b..3f1555c 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1200,6 +1200,11 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
 
         using namespace std::string_literals;
         for (auto const &[gen_var, var] : generator_values) {
+            // constants have nothing to do with the design
+            if (!var.is_rtl) {
+                scope.add_generator_value(gen_var.name, var.value);
+                continue;
+            }
             // maybe need to resolve the name based on the variable
             auto var_names =
                 resolve_generator_name(var.value, gen_var.name, bp->instance_id, rtl, db_.get());
@@ -1210,6 +1215,10 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
         }
 
         for (auto const &[ctx_var, var] : context_values) {
+            if (!var.is_rtl) {
+                scope.add_local_value(ctx_var.name, var.value);
+                continue;
+            }
             auto var_names = resolve_context_name(var.value, ctx_var.name, bp->id, rtl, db_.get());
             for (auto const &[front_name, rtl_name] : var_names) {
                 using VariableType = SymbolTableProvider::VariableType;
diff --git a/src/symbol.cc b/src/symbol.cc
index c940d45..cd903af 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -1,8 +1,8 @@
 #include "symbol.hh"
 
-#include <unordered_set>
 #include <filesystem>
 #include <mutex>
+#include <unordered_set>
 
 #include "asio.hpp"
 #include "db.hh"
@@ -66,7 +66,7 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_breakpoint(
     // NOLINTNEXTLINE
     for (auto it = vars.rbegin(); it != vars.rend(); it++) {
         auto const &[ctx, var] = *it;
-        if (rtl_equivalent(ctx.name, scoped_name) || var.value == scoped_name) {
+        if (rtl_equivalent(ctx.name, scoped_name) || (var.is_rtl && var.value == scoped_name)) {
             if (var.is_rtl) {
                 if (var.value.starts_with(*inst_name + ".")) {
                     return var.value;
@@ -87,7 +87,7 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_instance(
     auto inst_name = get_instance_name(instance_id);
     if (!inst_name) return std::nullopt;
     for (auto const &[gen, var] : vars) {
-        if (rtl_equivalent(gen.name, scoped_name) || var.value == scoped_name) {
+        if (rtl_equivalent(gen.name, scoped_name) || (var.is_rtl && var.value == scoped_name)) {
             if (var.is_rtl) {
                 if (var.value.starts_with(*inst_name + ".")) {
                     return var.value;
-- 
2.43.0


From d559edc4aaf61efa4e125647b22d35067ca3434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 44/78] fix: a variable is shown with the value of the variable
 named like its signal

---
 src/debug.cc     | 9 +++++----
 src/scheduler.cc | 6 ++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 3f1555c..e368b47 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1149,8 +1149,8 @@ std::vector<std::pair<std::string, std::string>> resolve_generator_name(std::str
                                                                         RTLSimulatorClient *rtl,
                                                                         SymbolTableProvider *db) {
     if (!rtl->is_absolute_path(rtl_name_base)) {
-        auto v = db->resolve_scoped_name_instance(rtl_name_base, instance_id);
-        if (v) rtl_name_base = *v;
+        auto inst_name = db->get_instance_name(instance_id);
+        if (inst_name) rtl_name_base = fmt::format("{0}.{1}", *inst_name, rtl_name_base);
     }
     auto var_names = rtl->resolve_rtl_variable(var_name, rtl_name_base);
     return var_names;
@@ -1162,8 +1162,9 @@ std::vector<std::pair<std::string, std::string>> resolve_context_name(std::strin
                                                                       RTLSimulatorClient *rtl,
                                                                       SymbolTableProvider *db) {
     if (!rtl->is_absolute_path(rtl_name_base)) {
-        auto v = db->resolve_scoped_name_breakpoint(rtl_name_base, bp_id);
-        if (v) rtl_name_base = *v;
+        // it's a name in the design already, which may be the name of another variable as well
+        auto inst_name = db->get_instance_name_from_bp(bp_id);
+        if (inst_name) rtl_name_base = fmt::format("{0}.{1}", *inst_name, rtl_name_base);
     }
     auto var_names = rtl->resolve_rtl_variable(var_name, rtl_name_base);
     return var_names;
diff --git a/src/scheduler.cc b/src/scheduler.cc
index 9a656da..fb8e523 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -428,8 +428,10 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
             }
             // make sure the variable is valid before inserting anything
             auto *rtl = target_ns->rtl.get();
-            auto expr = DebugExpression(target_var);
-            util::validate_expr(rtl, db_, &expr, db_bp.id, *db_bp.instance_id);
+            // it's a name in the design already, which may be the name of another variable as well
+            auto expr = DebugExpression(
+                instance_name ? fmt::format("{0}.{1}", *instance_name, target_var) : target_var);
+            util::validate_expr(rtl, db_, &expr, std::nullopt, std::nullopt);
             auto const &handles = expr.get_resolved_symbol_handles();
             if (!expr.correct() || handles.size() != 1 || !handles.begin()->second) {
                 log_error("Unable to validate variable in data breakpoint: " + target_var);
-- 
2.43.0


From ef1d37a778ad7e9668124db213b883397ed6c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:33 +0000
Subject: [PATCH 45/78] fix: source path mappings match prefixes that end
 within a path component

---
 src/symbol.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index cd903af..2d94af1 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -20,10 +20,19 @@ auto constexpr WS_SCHEMA = "ws://";
 
 namespace hgdb {
 
+// whole path components, i.e. /work is not a prefix of /workspace/a
+static bool has_path_prefix(const std::string &path, const std::string &prefix) {
+    if (!path.starts_with(prefix)) return false;
+    return prefix.empty() || prefix.back() == '/' || path.size() == prefix.size() ||
+           path[prefix.size()] == '/';
+}
+
 std::string resolve(const std::string &src_path, const std::string &dst_path,
                     const std::string &target) {
     namespace fs = std::filesystem;
-    if (src_path.empty() || target.starts_with(src_path)) [[likely]] {
+    if (has_path_prefix(target, src_path)) [[likely]] {
+        // the file itself is mapped
+        if (!src_path.empty() && target == src_path) return dst_path;
         std::error_code ec;
         auto path = fs::relative(target, src_path, ec);
         if (ec.value()) [[unlikely]]
@@ -196,7 +205,7 @@ std::string SymbolTableProvider::resolve_filename_to_db(const std::string &filen
     if (src_remap_.empty()) [[likely]]
         return filename;
     for (auto const &[src_path, dst_path] : src_remap_) {
-        if (filename.starts_with(src_path)) {
+        if (has_path_prefix(filename, src_path)) {
             return resolve(src_path, dst_path, filename);
         }
     }
@@ -209,7 +218,7 @@ std::string SymbolTableProvider::resolve_filename_to_client(const std::string &f
     if (src_remap_.empty()) [[likely]]
         return filename;
     for (auto const &[dst_path, src_path] : src_remap_) {
-        if (src_path.empty() || filename.starts_with(src_path)) {
+        if (has_path_prefix(filename, src_path)) {
             return resolve(src_path, dst_path, filename);
         }
     }
-- 
2.43.0


From aab94994414a294413613b270918a7d9c1882bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:33 +0000
Subject: [PATCH 46/78] fix: malformed expression crashes the parser on an
 abandoned branch

---
 src/eval.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eval.cc b/src/eval.cc
index 85b95e7..56397f5 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -128,8 +128,14 @@ public:
     void push(Operator op) {
         static const std::unordered_set<Operator> unary_ops = {Operator::Not, Operator::Invert,
                                                                Operator::UAdd, Operator::UMinus};
+        bool const is_unary = unary_ops.find(op) != unary_ops.end();
+        // actions also run on branches the parser gives up later, where operands can be missing
+        if (exprs_.size() < (is_unary ? 1u : 2u)) {
+            debug_.set_error();
+            return;
+        }
         Expr* result;
-        if (unary_ops.find(op) != unary_ops.end()) {
+        if (is_unary) {
             // unary op
             auto* exp = exprs_.top();
             exprs_.pop();
-- 
2.43.0


From ddc9f49c8995c50ae3ef390096f4b1e3c9e677cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:18 +0000
Subject: [PATCH 47/78] fix: breakpoints of a file with a relative path are not
 found by that path

---
 src/db.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 217585e..0fc1523 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1165,12 +1165,12 @@ private:
         // the query filename might mismatch with the filename we have, i.e. relative vs. absolute
         // Chisel only uses basename, but the users requests always send absolute name
         if (ref_path.empty()) return false;
+        if (query_path == ref_path) return true;
         if (is_relative(ref_path)) {
             auto f = base_name(query_path);
             return ref_path == f;
-        } else {
-            return query_path == ref_path;
         }
+        return false;
     }
 
     static std::string base_name(const std::string &filename) {
-- 
2.43.0


From a2cd72b60432e3aafe9716adb2f559277fa55e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:18 +0000
Subject: [PATCH 48/78] fix: lines of a nested file are found as lines of the
 enclosing file

---
 src/db.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 0fc1523..7657fa6 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1185,9 +1185,9 @@ private:
         while (p) {
             if (p->type == db::json::ScopeEntryType::Block) {
                 auto const *block = reinterpret_cast<const db::json::BlockEntry *>(p);
-                if (blocks.find(block) != blocks.end() &&
-                    is_filename_equivalent(filename_, block->filename)) {
-                    return block;
+                // the innermost file is the one that the entry comes from
+                if (blocks.find(block) != blocks.end()) {
+                    return is_filename_equivalent(filename_, block->filename) ? block : nullptr;
                 }
             }
 
-- 
2.43.0


From ca222cd38d8373ae0701cbcf96382859079b5972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:18 +0000
Subject: [PATCH 49/78] fix: operators of nested conditions of a symbol table
 bind across each other

---
 src/db.cc | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 7657fa6..372dc5c 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -415,6 +415,13 @@ enum class ScopeEntryType { None, Declaration, Block, Assign, Module };
 
 using ModuleDefDict = std::unordered_map<std::string, std::shared_ptr<db::json::ModuleDef>>;
 
+// conjunction of two conditions, where operators of one must not bind into the other
+std::string merge_condition(const std::string &cond1, const std::string &cond2) {
+    if (cond1.empty()) return cond2;
+    if (cond2.empty()) return cond1;
+    return fmt::format("({0}) && ({1})", cond1, cond2);
+}
+
 struct ScopeEntry {
     uint32_t line = 0;
     uint32_t column = 0;
@@ -437,14 +444,7 @@ struct ScopeEntry {
         std::string cond = condition;
         auto const *p = parent;
         while (p) {
-            if (!p->condition.empty()) {
-                if (cond.empty()) {
-                    cond = p->condition;
-                } else {
-                    cond.append(" && ").append(p->condition);
-                }
-            }
-
+            cond = merge_condition(cond, p->condition);
             p = p->parent;
         }
         return cond;
@@ -1756,18 +1756,6 @@ private:
     }
 };
 
-std::string merge_condition(const std::string &cond1, const std::string &cond2) {
-    if (cond1.empty() && cond2.empty()) {
-        return {};
-    } else if (!cond1.empty() && cond2.empty()) {
-        return cond1;
-    } else if (cond1.empty() && !cond2.empty()) {
-        return cond2;
-    } else {
-        return fmt::format("{0} && {1}", cond1, cond2);
-    }
-}
-
 std::vector<std::tuple<uint32_t, std::string, std::string>>
 JSONSymbolTableProvider::get_assigned_breakpoints(const std::string &var_name,
                                                   uint32_t breakpoint_id) {
@@ -1809,7 +1797,7 @@ JSONSymbolTableProvider::get_assigned_breakpoints(const std::string &var_name,
         auto bp_id = instance->get_bp_id(info.assign);
         if (!bp_id) continue;
         // we need to merge condition as well
-        auto cond = merge_condition(info.assign->get_condition(), info.condition);
+        auto cond = db::json::merge_condition(info.assign->get_condition(), info.condition);
         result.emplace_back(std::make_tuple(*bp_id, info.rtl_value, cond));
     }
 
-- 
2.43.0


From 960839a9bd24327cefda64cd0fc997226fc34ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:18 +0000
Subject: [PATCH 50/78] fix: variables declared at the same place appear in
 reverse order

---
 src/db.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 372dc5c..a0f0123 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1453,8 +1453,10 @@ JSONSymbolTableProvider::get_context_variables(uint32_t breakpoint_id) {  // NOL
     auto process_node = [this, &vars, &temp_vars, breakpoint_id](const db::json::ScopeEntry *pre) {
         if (pre->type == db::json::ScopeEntryType::Declaration) {
             auto const *decl = reinterpret_cast<const db::json::VarDeclEntry *>(pre);
-            for (auto const &var : decl->vars) {
-                vars.emplace_back(std::make_pair(var->name, var.get()));
+            // the result is reversed later
+            // NOLINTNEXTLINE
+            for (auto it = decl->vars.rbegin(); it != decl->vars.rend(); it++) {
+                vars.emplace_back(std::make_pair((*it)->name, it->get()));
             }
 
         } else if (pre->type == db::json::ScopeEntryType::Assign) {
@@ -1487,8 +1489,9 @@ JSONSymbolTableProvider::get_context_variables(uint32_t breakpoint_id) {  // NOL
                     }
                 }
             } else {
-                for (auto const &var : assign->vars) {
-                    vars.emplace_back(std::make_pair(var->name, var.get()));
+                // NOLINTNEXTLINE
+                for (auto it = assign->vars.rbegin(); it != assign->vars.rend(); it++) {
+                    vars.emplace_back(std::make_pair((*it)->name, it->get()));
                 }
             }
         }
-- 
2.43.0


From 9635de64521e2b1fde1239767971ab81e6b31f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:52 +0000
Subject: [PATCH 51/78] fix: variables defined by reference lose their delay

---
 src/db.cc | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index a0f0123..22a11a8 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -713,6 +713,25 @@ std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONPar
     return result;
 }
 
+std::shared_ptr<VarDef> parse_var_def(const rapidjson::Value &value) {
+    auto var = std::make_shared<VarDef>();
+    var->name = value["name"].GetString();
+    var->value = value["value"].GetString();
+    var->rtl = value["rtl"].GetBool();
+
+    if (value.HasMember("type")) {
+        std::string t = value["type"].GetString();
+        if (t == "delay") {
+            var->type = VariableType::delay;
+
+            if (value.HasMember("depth")) {
+                var->depth = value["depth"].GetUint();
+            }
+        }
+    }
+    return var;
+}
+
 std::vector<std::shared_ptr<VarDef>> parse_var(const rapidjson::Value &value, JSONParseInfo &info) {
     std::shared_ptr<VarDef> var;
     if (value.IsString()) {
@@ -723,21 +742,7 @@ std::vector<std::shared_ptr<VarDef>> parse_var(const rapidjson::Value &value, JS
             var = vars.at(id);
         }
     } else {
-        var = std::make_shared<VarDef>();
-        var->name = value["name"].GetString();
-        var->value = value["value"].GetString();
-        var->rtl = value["rtl"].GetBool();
-
-        if (value.HasMember("type")) {
-            std::string t = value["type"].GetString();
-            if (t == "delay") {
-                var->type = VariableType::delay;
-
-                if (value.HasMember("depth")) {
-                    var->depth = value["depth"].GetUint();
-                }
-            }
-        }
+        var = parse_var_def(value);
     }
 
     if (!var) {
@@ -752,12 +757,8 @@ void parse_var_defs(const rapidjson::Document &document, JSONParseInfo &info) {
     if (!document.HasMember("variables")) return;
     auto variables = document["variables"].GetArray();
     for (auto const &var_def : variables) {
-        auto var = std::make_shared<VarDef>();
-        var->name = var_def["name"].GetString();
-        var->value = var_def["value"].GetString();
-        var->rtl = var_def["rtl"].GetBool();
         std::string id = var_def["id"].GetString();
-        info.var_defs.emplace(id, var);
+        info.var_defs.emplace(id, parse_var_def(var_def));
     }
 }
 
-- 
2.43.0


From 4e40bd8103b959e4b5ccb95db9ab786ed3442b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:52 +0000
Subject: [PATCH 52/78] fix: variables assigned at the same place are all
 delayed or all not

---
 src/db.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 22a11a8..827db16 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1533,7 +1533,7 @@ JSONSymbolTableProvider::get_context_delayed_variables(uint32_t breakpoint_id) {
 
         } else if (pre->type == db::json::ScopeEntryType::Assign) {
             auto const *assign = reinterpret_cast<const db::json::AssignEntry *>(pre);
-            bool add_delay = assign->vars[0]->type == VariableType::delay;
+            bool add_delay = false;
             if (assign->has_index()) [[unlikely]] {
                 // need to be careful about the indexed value here
                 for (auto const &indexed : assign->indices) {
@@ -1544,10 +1544,10 @@ JSONSymbolTableProvider::get_context_delayed_variables(uint32_t breakpoint_id) {
                 }
             }
 
-            if (add_delay) {
-                for (auto const &var : assign->vars) {
+            // assignments to several variables can be merged into the same entry
+            for (auto const &var : assign->vars) {
+                if (add_delay || var->type == VariableType::delay)
                     vars.emplace_back(std::make_pair(var->name, var.get()));
-                }
             }
         }
     };
-- 
2.43.0


From c22bced3e87dc34ff5e7f421de6387f316fa68f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:52 +0000
Subject: [PATCH 53/78] fix: looking up an empty instance name reads out of
 bounds

---
 src/db.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/db.cc b/src/db.cc
index 827db16..dc4f6a2 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1374,6 +1374,7 @@ std::optional<uint64_t> JSONSymbolTableProvider::get_instance_id(uint64_t breakp
 
 std::optional<uint64_t> JSONSymbolTableProvider::get_instance_id(const std::string &instance_name) {
     auto instances = util::get_tokens(instance_name, ".");
+    if (instances.empty()) return std::nullopt;
     for (auto const &root : roots_) {
         if (instances[0] == root->name) {
             auto const *p = root.get();
-- 
2.43.0


From 78a3a2dd89a47f70f554ef181b0d078c663555b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:52 +0000
Subject: [PATCH 54/78] fix: an index with an unknown variable crashes the
 symbol table

---
 src/db.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db.cc b/src/db.cc
index dc4f6a2..5823250 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -703,7 +703,9 @@ std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONPar
         auto const &indices = value["indices"];
         for (auto const &index : indices.GetArray()) {
             AssignEntry::IndexInfo idx;
-            idx.var = parse_var(index["var"], info)[0];
+            auto index_var = parse_var(index["var"], info);
+            if (index_var.empty()) continue;
+            idx.var = index_var[0];
             idx.min = index["min"].GetUint();
             idx.max = index["max"].GetUint();
             result->indices.emplace_back(idx);
-- 
2.43.0


From 37511b7e640178a517e2504df094e36eb532fd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:52 +0000
Subject: [PATCH 55/78] fix: a module defined twice leaves a freed definition
 behind

---
 src/db.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db.cc b/src/db.cc
index 5823250..f92f58e 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -629,7 +629,9 @@ std::shared_ptr<ModuleDef> parse_module_def(const rapidjson::Value &value, JSONP
     info.current_scope = result.get();
 
     result->name = value["name"].GetString();
-    info.module_defs.emplace(result->name, result);
+    if (!info.module_defs.emplace(result->name, result).second) {
+        info.error_reason = "Module " + result->name + " is defined more than once";
+    }
     set_scope_entry_value(value, *result);
 
     // variables
-- 
2.43.0


From 31ebfbb804bf234da6a77571e659d1610301686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:52 +0000
Subject: [PATCH 56/78] fix: a module that instantiates itself overflows the
 stack

---
 src/db.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/db.cc b/src/db.cc
index f92f58e..403b49a 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1903,6 +1903,13 @@ void resolve_module_instances(db::json::ModuleDef &def, db::json::ModuleDefDict
     }
 }
 
+bool is_recursive(const db::json::ModuleDef *def, std::set<const db::json::ModuleDef *> parents) {
+    if (!parents.emplace(def).second) return true;
+    return std::any_of(def->instances.begin(), def->instances.end(), [&parents](auto const &iter) {
+        return is_recursive(iter.second, parents);
+    });
+}
+
 void JSONSymbolTableProvider::parse_db() {
     uint32_t inst_id = 0;
     for (auto const &root : roots_) {
@@ -1919,6 +1926,11 @@ void JSONSymbolTableProvider::parse_db() {
             roots_.clear();
             return;
         }
+        if (is_recursive(root->definition, {})) {
+            log::log(log::log_level::error, root->name + " is instantiated recursively");
+            roots_.clear();
+            return;
+        }
         // build up the instance tree
         db::json::build_instance_tree(*root, inst_id);
         // depends on whether the generator wants reordering
-- 
2.43.0


From 77e96dda05143368a76eb53b4aa26d8e74d417e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:18 +0000
Subject: [PATCH 57/78] fix: an erroneous symbol table is processed before it
 is dropped

---
 src/db.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 403b49a..d8a9a33 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1871,13 +1871,13 @@ bool JSONSymbolTableProvider::parse(const std::string &db_content) {
         roots_ = db::json::parse(document, info);
         reordering_ = reordering(document);
 
-        parse_db();
-
         if (!info.error_reason.empty()) {
             // we have an error
             log::log(log::log_level::error, info.error_reason);
             roots_.clear();
         }
+
+        parse_db();
     }
     return !roots_.empty();
 }
-- 
2.43.0


From 804cfe04dfb96c6a82f29d20aa327ee543872cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:11 +0000
Subject: [PATCH 58/78] fix: assignments of a variable without a name

---
 src/db.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index d8a9a33..c79de8c 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1703,7 +1703,7 @@ private:
     // NOLINTNEXTLINE
     [[nodiscard]] std::optional<Info> rtl_equivalent(const db::json::AssignEntry &assign) const {
         // the problem is the front end name maybe an indexed variable
-        if (assign.has_index()) {
+        if (assign.has_index() && !var_names_.empty()) {
             // this is an indexed variable
             // make sure up to the index we are the same
             // notice that once index is present, it's illegal to have multiple vars
@@ -1719,8 +1719,7 @@ private:
                             // we have found it. create a condition now
                             auto cond = fmt::format("{0} == {1}", index.var->value, *idx);
                             // and rtl value
-                            auto value =
-                                fmt::format(fmt::format("{0}[{1}]", assign.vars[0]->value, *idx));
+                            auto value = fmt::format("{0}[{1}]", assign.vars[0]->value, *idx);
                             return Info{&assign, value, cond};
                         }
                     }
-- 
2.43.0


From 352c5a0b39e7e63e505058a17fd522c7d5a5e425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:50 +0000
Subject: [PATCH 59/78] fix: signals wider than 32 bits are read truncated

---
 src/rtl.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 24fb74a..f7ca53c 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -295,9 +295,22 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
     }
 
     s_vpi_value v;
-    v.format = vpiIntVal;
-    vpi_->vpi_get_value(handle, &v);
-    int64_t result = v.value.integer;
+    int64_t result;
+    // vpiIntVal only carries the lowest 32 bits
+    if (is_signal && get_vpi_size(handle) > 32) [[unlikely]] {
+        v.format = vpiBinStrVal;
+        vpi_->vpi_get_value(handle, &v);
+        uint64_t bits = 0;
+        if (v.value.str) {
+            // same as vpiIntVal, x and z are read as 0
+            for (auto const *c = v.value.str; *c; c++) bits = (bits << 1) | (*c == '1' ? 1u : 0u);
+        }
+        result = static_cast<int64_t>(bits);
+    } else {
+        v.format = vpiIntVal;
+        vpi_->vpi_get_value(handle, &v);
+        result = v.value.integer;
+    }
 
     if (is_slice_handle) [[unlikely]] {
         result = get_slice(result, mock_slice_handles_.at(target_handle));
-- 
2.43.0


From de6eaad04a15bbacc6030e4a2015aa0da789450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:50 +0000
Subject: [PATCH 60/78] fix: setting signals wider than 32 bits and slices

---
 src/rtl.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index f7ca53c..6613644 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -401,9 +401,25 @@ std::optional<std::string> RTLSimulatorClient::get_str_value(vpiHandle handle, b
 
 bool RTLSimulatorClient::set_value(vpiHandle handle, int64_t value) {
     if (!handle) return false;
+    // slices only exist in the debugger. the simulator doesn't know the handle
+    if (mock_slice_handles_.find(handle) != mock_slice_handles_.end()) return false;
     s_vpi_value vpi_value;
-    vpi_value.value.integer = static_cast<int>(value);
-    vpi_value.format = vpiIntVal;
+    // vpiIntVal only carries 32 bits. anything wider has to be set word by word
+    std::vector<s_vpi_vecval> words;
+    auto const width = get_vpi_size(handle);
+    if (width > 32) {
+        words.resize((width - 1) / 32 + 1);
+        for (auto i = 0u; i < words.size(); i++) {
+            // sign extension beyond 64 bits, same as vpiIntVal beyond 32 bits
+            words[i].aval = static_cast<PLI_INT32>(value >> (i < 2 ? i * 32 : 63));
+            words[i].bval = 0;
+        }
+        vpi_value.value.vector = words.data();
+        vpi_value.format = vpiVectorVal;
+    } else {
+        vpi_value.value.integer = static_cast<int>(value);
+        vpi_value.format = vpiIntVal;
+    }
 
     // If the flag argument also has the bit mask vpiReturnEvent,
     // vpi_put_value() shall return a handle of type vpiSchedEvent to the newly scheduled event,
-- 
2.43.0


From 4752b5890bf0450642bb2fddd9af064cc6b3690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:50 +0000
Subject: [PATCH 61/78] fix: expanding unpacked arrays of single bits and
 memories

---
 src/rtl.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 6613644..7260a2c 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -659,10 +659,13 @@ std::vector<std::pair<std::string, std::string>> RTLSimulatorClient::resolve_rtl
         // we have to use brute force
         auto first_element = fmt::format("{0}[0]", rtl_name);
         if (auto *first_handle = get_handle(first_element)) {
-            auto is_array = vpi_->vpi_get(vpiVector, first_handle);
+            // an element of an unpacked array doesn't have to be a vector
+            bool is_unpacked = type == vpiRegArray || type == vpiNetArray || type == vpiMemory;
+            auto is_array = is_unpacked ? 1 : vpi_->vpi_get(vpiVector, first_handle);
             if (is_array != vpiError && is_array != vpiUndefined && is_array != 0) {
+                // the size of an unpacked array is the number of elements already
                 auto size = vpi_->vpi_get(vpiSize, handle);
-                if (type != vpiRegArray && type != vpiNetArray) {
+                if (!is_unpacked) {
                     auto element_size = vpi_->vpi_get(vpiSize, first_handle);
                     size = size / element_size;
                 }
-- 
2.43.0


From 90300e093f42209b8cb6e92b825d0ab86e4c153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 62/78] fix: setting a module

---
 src/rtl.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rtl.cc b/src/rtl.cc
index 7260a2c..1d1b10f 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -401,6 +401,9 @@ std::optional<std::string> RTLSimulatorClient::get_str_value(vpiHandle handle, b
 
 bool RTLSimulatorClient::set_value(vpiHandle handle, int64_t value) {
     if (!handle) return false;
+    // scopes don't have a value
+    auto const type = get_vpi_type(handle);
+    if (type == vpiModule || type == vpiInterface) return false;
     // slices only exist in the debugger. the simulator doesn't know the handle
     if (mock_slice_handles_.find(handle) != mock_slice_handles_.end()) return false;
     s_vpi_value vpi_value;
-- 
2.43.0


From 52ad3f41d6d42e0815858a24ddd37e12498549bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:50 +0000
Subject: [PATCH 63/78] fix: names of members while expanding

---
 src/rtl.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 1d1b10f..de1b4fe 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -626,8 +626,9 @@ std::vector<std::pair<std::string, std::string>> RTLSimulatorClient::resolve_rtl
                             int property, std::vector<std::pair<std::string, std::string>> &res) {
         if (auto *it = vpi_->vpi_iterate(property, handle)) {
             while (auto *h = vpi_->vpi_scan(it)) {
-                auto *rtl = vpi_->vpi_get_str(vpiFullName, h);
-                auto *n = vpi_->vpi_get_str(vpiName, h);
+                // the next call overwrites the string
+                std::string const rtl = vpi_->vpi_get_str(vpiFullName, h);
+                std::string const n = vpi_->vpi_get_str(vpiName, h);
                 // make it recursive to account for
                 auto new_res = resolve_rtl_variable(front_name + "." + n, rtl);
                 res.insert(res.end(), new_res.begin(), new_res.end());
-- 
2.43.0


From 84284e908c6e52c008520f243126ee165251fbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:33 +0000
Subject: [PATCH 64/78] fix: VCD timestamps beyond 31 bits

---
 tools/vcd/vcd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/vcd/vcd.cc b/tools/vcd/vcd.cc
index f2e94f7..c656267 100644
--- a/tools/vcd/vcd.cc
+++ b/tools/vcd/vcd.cc
@@ -229,7 +229,7 @@ bool VCDParser::parse_vcd_values() {  // NOLINT
         if (token.empty()) return true;
 
         if (token[0] == '#') {
-            timestamp = std::stoi(std::string(token.substr(1)));
+            timestamp = std::stoull(std::string(token.substr(1)));
             if (on_time_change_) (*on_time_change_)(timestamp);
         } else if (std::string("01xz").find(token[0]) != std::string::npos) {
             auto value = std::string(1, token[0]);
-- 
2.43.0


From f239297b4d4e1ec8e915fa737548de799d2451ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:33 +0000
Subject: [PATCH 65/78] fix: replayed values wider than 32 bits

---
 tools/hgdb-replay/vpi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/hgdb-replay/vpi.cc b/tools/hgdb-replay/vpi.cc
index a32d13e..68eab6a 100644
--- a/tools/hgdb-replay/vpi.cc
+++ b/tools/hgdb-replay/vpi.cc
@@ -20,7 +20,7 @@ int64_t convert_value(const std::string &raw_value) {
         auto bit = bits - i - 1;
         char v = raw_value[i];
         if (v == '1') {
-            result |= 1 << bit;
+            if (bit < 64) result |= static_cast<int64_t>(1ull << bit);
         } else if (v == 'z' || v == 'x') {
             // invalid value we display 0, which is consistent with Verilator
             return 0;
-- 
2.43.0


From 66f3a6bad78fd71c6765a28fc46f43947553ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:33 +0000
Subject: [PATCH 66/78] fix: replayed array elements without a value

---
 tools/hgdb-replay/vpi.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tools/hgdb-replay/vpi.cc b/tools/hgdb-replay/vpi.cc
index 68eab6a..7e2c682 100644
--- a/tools/hgdb-replay/vpi.cc
+++ b/tools/hgdb-replay/vpi.cc
@@ -118,11 +118,12 @@ void ReplayVPIProvider::vpi_get_value(vpiHandle expr, p_vpi_value value_p) {
             set_value(value_p, 0, str_buffer_);
         }
     } else if (array_info_.find(expr) != array_info_.end()) {
-        // if there is any error, we return
-        value_p->value.integer = 0;
-        value_p->value.str = nullptr;
         auto info = get_array_info(expr);
-        if (!info) return;
+        if (!info) {
+            // same as signals, 0 should be returned
+            set_value(value_p, 0, str_buffer_);
+            return;
+        }
         auto hi = info->hi;
         auto lo = info->lo;
         auto width = hi - lo;
-- 
2.43.0


From d0f383b9c68222aa9108b443a1cfa317ed00a339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:33 +0000
Subject: [PATCH 67/78] fix: signals of a replayed instance

---
 tools/hgdb-replay/vpi.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/hgdb-replay/vpi.cc b/tools/hgdb-replay/vpi.cc
index 7e2c682..8511298 100644
--- a/tools/hgdb-replay/vpi.cc
+++ b/tools/hgdb-replay/vpi.cc
@@ -258,9 +258,12 @@ vpiHandle ReplayVPIProvider::vpi_iterate(PLI_INT32 type, vpiHandle refHandle) {
             // for each signal return a scan handle
             for (auto const &signal : signals) {
                 auto *handle = get_signal_handle(signal.id);
-                if (handle) {
-                    handles.emplace_back(handle);
+                if (!handle) {
+                    // may not be created yet
+                    handle = get_new_handle();
+                    signal_id_map_.emplace(handle, signal.id);
                 }
+                handles.emplace_back(handle);
             }
         }
     } else if (type == vpiModule) {
-- 
2.43.0


From 98abc3d592dbffe7ed722ea792ddc10e3c117f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:33 +0000
Subject: [PATCH 68/78] fix: one handle for each replayed object

---
 tools/hgdb-replay/vpi.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/hgdb-replay/vpi.cc b/tools/hgdb-replay/vpi.cc
index 8511298..71a0048 100644
--- a/tools/hgdb-replay/vpi.cc
+++ b/tools/hgdb-replay/vpi.cc
@@ -208,16 +208,19 @@ vpiHandle ReplayVPIProvider::vpi_handle_by_name(char *name, vpiHandle scope) {
     // need to make sure it's either a signal or a module
     auto id = db_->get_instance_id(name);
     std::optional<vpiHandle> handle;
+    // it may have a handle already from iterating through the hierarchy
     if (id) {
         // it's a module
-        handle = get_new_handle();
+        auto *existing_handle = get_instance_handle(*id);
+        handle = existing_handle ? existing_handle : get_new_handle();
         instance_id_map_.emplace(*handle, *id);
     } else {
         // now try signal
         id = db_->get_signal_id(name);
         if (id) {
             // it's a signal
-            handle = get_new_handle();
+            auto *existing_handle = get_signal_handle(*id);
+            handle = existing_handle ? existing_handle : get_new_handle();
             signal_id_map_.emplace(*handle, *id);
         }
     }
-- 
2.43.0


From 099e30b48d84133c28e2d41cb0b9fd68a576833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:33 +0000
Subject: [PATCH 69/78] fix: registering a callback in a replay callback

---
 tools/hgdb-replay/vpi.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/hgdb-replay/vpi.cc b/tools/hgdb-replay/vpi.cc
index 71a0048..8aabd7a 100644
--- a/tools/hgdb-replay/vpi.cc
+++ b/tools/hgdb-replay/vpi.cc
@@ -444,8 +444,12 @@ bool ReplayVPIProvider::is_valid_handle(const vpiHandle handle) const {
 }
 
 void ReplayVPIProvider::trigger_cb(uint32_t reason, vpiHandle handle, int64_t value) {  // NOLINT
-    for (auto const &iter : callbacks_) {
-        auto cb_data = iter.second;
+    // callbacks can be registered in a callback
+    std::vector<vpiHandle> cb_handles;
+    cb_handles.reserve(callbacks_.size());
+    for (auto const &iter : callbacks_) cb_handles.emplace_back(iter.first);
+    for (auto *cb_handle : cb_handles) {
+        auto cb_data = callbacks_.at(cb_handle);
         if (cb_data.deleted) continue;
         s_vpi_value vpi_value;
         if (cb_data.data.reason == reason) {
-- 
2.43.0


From 0d7c5346d6fe2e31671cb1dddfd25a0af80f1e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:33 +0000
Subject: [PATCH 70/78] fix: replay skips value changes right after another one

---
 tools/hgdb-replay/engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/hgdb-replay/engine.cc b/tools/hgdb-replay/engine.cc
index 1ebeb9c..af5cc68 100644
--- a/tools/hgdb-replay/engine.cc
+++ b/tools/hgdb-replay/engine.cc
@@ -129,7 +129,7 @@ void EmulationEngine::emulation_loop() {
         // requests when the simulator is running. only when the simulator is paused is
         // the request well-defined. in this case, inside the trigger_cb call
         if (timestamp_.load() == (time - 1)) {
-            change_time(time + 1);
+            change_time(time);
         } else {
             // advance the timestamp a little to align the proper clock period
             timestamp_.fetch_add(1);
-- 
2.43.0


From 7bd11ef8b507ed40dd296cf0f942e55d4a3753d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:33 +0000
Subject: [PATCH 71/78] fix: rewinding to the initial value of a clock

---
 tools/hgdb-replay/engine.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/hgdb-replay/engine.cc b/tools/hgdb-replay/engine.cc
index af5cc68..4ce9923 100644
--- a/tools/hgdb-replay/engine.cc
+++ b/tools/hgdb-replay/engine.cc
@@ -62,7 +62,8 @@ bool EmulationEngine::on_rewound(hgdb::AVPIProvider::rewind_data* rewind_data) {
         auto signal = vpi_->get_signal_id(handle);
         if (signal) {
             auto time = vpi_->db().get_prev_value_change_time(*signal, max_time, "1");
-            if (time) {
+            // the value at time 0 is the initial value, not an edge
+            if (time && *time > 0) {
                 times.emplace_back(*time);
             }
         }
-- 
2.43.0


From a1429824e6c14426a3a6dbf0187a43733bdee42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 72/78] fix: replay callbacks of signals that do not change

---
 tools/hgdb-replay/engine.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tools/hgdb-replay/engine.cc b/tools/hgdb-replay/engine.cc
index 4ce9923..ceac4b7 100644
--- a/tools/hgdb-replay/engine.cc
+++ b/tools/hgdb-replay/engine.cc
@@ -89,15 +89,18 @@ void EmulationEngine::emulation_loop() {
         change_time(time);
         // retrieve all the watched values and compare their value change
         std::unordered_map<vpiHandle, int64_t> changed_values;
-        for (auto const& [handle, pre_value] : watched_values_) {
+        for (auto const& iter : watched_values_) {
+            auto* handle = iter.first;
+            auto signal_id = vpi_->get_signal_id(handle);
+            if (!signal_id) continue;
+            // only the ones that actually change at this time
+            if (vpi_->db().get_signal_value(*signal_id, time) ==
+                vpi_->db().get_signal_value(*signal_id, time - 1))
+                continue;
             s_vpi_value value_p;
             value_p.format = vpiIntVal;
             vpi_->vpi_get_value(handle, &value_p);
-            auto current_value = value_p.value.integer;
-            if (!pre_value || (pre_value && (*pre_value != current_value))) {
-                // this is a value change
-                changed_values.emplace(handle, current_value);
-            }
+            changed_values.emplace(handle, value_p.value.integer);
         }
         // notice that since we are doing emulation, at the callback only that particular
         // value is changed properly, the rest is still "lagging" behind, then we actually
-- 
2.43.0


From 49e8e045e68da07b88891de262988cc867ba9561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 73/78] fix: clock values after rewinding a replay

---
 tools/hgdb-replay/engine.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/hgdb-replay/engine.cc b/tools/hgdb-replay/engine.cc
index ceac4b7..ba427d1 100644
--- a/tools/hgdb-replay/engine.cc
+++ b/tools/hgdb-replay/engine.cc
@@ -73,6 +73,13 @@ bool EmulationEngine::on_rewound(hgdb::AVPIProvider::rewind_data* rewind_data) {
     auto next_time = times.back();
     // move back a little so we can evaluate the posedge
     change_time(next_time - 1);
+    // only the clocks that rise there have their new values
+    vpi_->clear_overridden_values();
+    for (auto* handle : rewind_data->clock_signals) {
+        auto signal = vpi_->get_signal_id(handle);
+        if (signal && vpi_->db().get_prev_value_change_time(*signal, max_time, "1") == next_time)
+            vpi_->add_overridden_value(handle, 1);
+    }
     return true;
 }
 
-- 
2.43.0


From 5b8024b6bc20f1e5523dd89f32f847f54a281eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 74/78] fix: removing one of several replay callbacks on a
 signal

---
 tools/hgdb-replay/engine.cc | 5 +++--
 tools/hgdb-replay/engine.hh | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/hgdb-replay/engine.cc b/tools/hgdb-replay/engine.cc
index ba427d1..4ab2686 100644
--- a/tools/hgdb-replay/engine.cc
+++ b/tools/hgdb-replay/engine.cc
@@ -43,14 +43,15 @@ void EmulationEngine::finish() {
 void EmulationEngine::on_cb_added(p_cb_data cb_data) {
     auto* handle = cb_data->obj;
     if (vpi_->is_valid_handle(handle)) {
-        watched_values_.emplace(std::make_pair(handle, std::nullopt));
+        watched_values_[handle]++;
     }
 }
 
 void EmulationEngine::on_cb_removed(const s_cb_data& cb_data) {
     auto* handle = cb_data.obj;
     if (watched_values_.find(handle) != watched_values_.end()) {
-        watched_values_.erase(handle);
+        // there may be other callbacks on it
+        if (--watched_values_.at(handle) == 0) watched_values_.erase(handle);
     }
 }
 
diff --git a/tools/hgdb-replay/engine.hh b/tools/hgdb-replay/engine.hh
index ce5a270..2dc65d0 100644
--- a/tools/hgdb-replay/engine.hh
+++ b/tools/hgdb-replay/engine.hh
@@ -19,7 +19,8 @@ public:
 private:
     ReplayVPIProvider* vpi_;
     std::atomic<uint64_t> timestamp_ = 0;
-    std::map<vpiHandle, std::optional<int64_t>> watched_values_;
+    // number of callbacks watching the values
+    std::map<vpiHandle, uint64_t> watched_values_;
 
     // use for non-blocking conditions
     // normally it's for testing
-- 
2.43.0


From 860f5e62b2ac53deae331c8b2d2ac4715101271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:20 +0000
Subject: [PATCH 75/78] fix: VCD files that end without a new line

---
 tools/vcd/vcd.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/vcd/vcd.cc b/tools/vcd/vcd.cc
index c656267..28fb19a 100644
--- a/tools/vcd/vcd.cc
+++ b/tools/vcd/vcd.cc
@@ -25,7 +25,8 @@ std::string next_token(std::istream &stream) {
     uint64_t length = 0;
     while (!stream.eof()) {
         char c = '\0';
-        stream.get(c);
+        // the last token may be right at the end of the stream
+        if (!stream.get(c)) break;
         if (c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f') {
             if (length == 0)
                 continue;
@@ -246,7 +247,7 @@ bool VCDParser::parse_vcd_values() {  // NOLINT
             if (on_dump_var_action_) (*on_dump_var_action_)(token);
             while (true) {
                 token = next_token(stream_);
-                if (token == "$end") {
+                if (token == "$end" || token.empty()) {
                     break;
                 } else if (std::string("01xz").find(token[0]) != std::string::npos) {
                     auto value = std::string(1, token[0]);
-- 
2.43.0


From a6ff6c2582158fd6122c5593497e38c41e2d878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:20 +0000
Subject: [PATCH 76/78] fix: width of replayed array elements

---
 tools/hgdb-replay/vpi.cc | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/tools/hgdb-replay/vpi.cc b/tools/hgdb-replay/vpi.cc
index 8aabd7a..1f52830 100644
--- a/tools/hgdb-replay/vpi.cc
+++ b/tools/hgdb-replay/vpi.cc
@@ -124,13 +124,15 @@ void ReplayVPIProvider::vpi_get_value(vpiHandle expr, p_vpi_value value_p) {
             set_value(value_p, 0, str_buffer_);
             return;
         }
-        auto hi = info->hi;
+        auto const size = info->raw_value.size();
+        auto hi = std::min<uint64_t>(info->hi, size);
         auto lo = info->lo;
-        auto width = hi - lo;
+        if (lo >= hi) {
+            set_value(value_p, 0, str_buffer_);
+            return;
+        }
         // notice that everything is reversed
-        hi = info->raw_value.size() - lo;
-        lo = hi - width;
-        auto value = info->raw_value.substr(lo, hi - lo);
+        auto value = info->raw_value.substr(size - hi, hi - lo);
         set_value(value_p, value, str_buffer_);
     }
 }
@@ -602,8 +604,9 @@ std::optional<ReplayVPIProvider::PackedArrayInfo> ReplayVPIProvider::get_array_i
     // need to slice out the information we need
     auto const &[parent_handle, slice_info] = array_info_.at(expr);
     if (signal_id_map_.find(parent_handle) != signal_id_map_.end()) {
-        auto raw_value = db_->get_signal_value(signal_id_map_.at(parent_handle), current_time_);
-        if (!raw_value) return std::nullopt;
+        // leading bits can be left out, and there may not be a value yet
+        auto raw_value =
+            db_->get_signal_value(signal_id_map_.at(parent_handle), current_time_).value_or("");
         auto signal = db_->get_signal(signal_id_map_.at(parent_handle));
         auto array_size = array_map_.at(parent_handle).size();
         auto slice_size = signal->width / array_size;
@@ -621,13 +624,7 @@ std::optional<ReplayVPIProvider::PackedArrayInfo> ReplayVPIProvider::get_array_i
             lo = lo + slice_size * i;
             hi = lo + slice_size;
         }
-        // need to slice out the raw value
-        if (lo >= raw_value->size()) {
-            return std::nullopt;
-        }
-        // need to slice out the raw_value
-        hi = std::min<uint64_t>(hi, raw_value->size());
-        return ReplayVPIProvider::PackedArrayInfo{.lo = lo, .hi = hi, .raw_value = *raw_value};
+        return ReplayVPIProvider::PackedArrayInfo{.lo = lo, .hi = hi, .raw_value = raw_value};
     }
     return std::nullopt;
 }
-- 
2.43.0


From 33e9f01db03997591983d36a5901c56ba516873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:10 +0000
Subject: [PATCH 77/78] fix: upper case, real values and comments among VCD
 values

---
 tools/vcd/vcd.cc | 48 ++++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/tools/vcd/vcd.cc b/tools/vcd/vcd.cc
index 28fb19a..5ed3f43 100644
--- a/tools/vcd/vcd.cc
+++ b/tools/vcd/vcd.cc
@@ -224,6 +224,29 @@ bool VCDParser::parse_vcd_values() {  // NOLINT
         }
     };
 
+    auto parse_value = [this, &add_value](const std::string &token) {
+        // x and z can be in either case
+        auto to_lower = [](std::string value) {
+            std::transform(value.begin(), value.end(), value.begin(),
+                           [](unsigned char c) { return std::tolower(c); });
+            return value;
+        };
+        if (std::string("01xzXZ").find(token[0]) != std::string::npos) {
+            auto value = to_lower(std::string(1, token[0]));
+            auto ident = std::string(token.substr(1));
+
+            add_value(ident, value, true);
+        } else if (std::string("bB").find(token[0]) != std::string::npos) {
+            auto value = to_lower(std::string(token.substr(1)));
+            auto ident = std::string(next_token(stream_));
+
+            add_value(ident, value);
+        } else if (std::string("rR").find(token[0]) != std::string::npos) {
+            // real values are not supported, but the identifier can look like anything
+            next_token(stream_);
+        }
+    };
+
     while (true) {
         start_pos = tellg();
         auto token = next_token(stream_);
@@ -232,16 +255,8 @@ bool VCDParser::parse_vcd_values() {  // NOLINT
         if (token[0] == '#') {
             timestamp = std::stoull(std::string(token.substr(1)));
             if (on_time_change_) (*on_time_change_)(timestamp);
-        } else if (std::string("01xz").find(token[0]) != std::string::npos) {
-            auto value = std::string(1, token[0]);
-            auto ident = std::string(token.substr(1));
-
-            add_value(ident, value, true);
-        } else if (std::string("b").find(token[0]) != std::string::npos) {
-            auto value = std::string(token.substr(1));
-            auto ident = std::string(next_token(stream_));
-
-            add_value(ident, value);
+        } else if (token == "$comment") {
+            while (token != end_str && !token.empty()) token = next_token(stream_);
         } else if (token == "$dumpvars" || token == "$dumpall" || token == "$dumpon" ||
                    token == "$dumpoff") {
             if (on_dump_var_action_) (*on_dump_var_action_)(token);
@@ -249,18 +264,11 @@ bool VCDParser::parse_vcd_values() {  // NOLINT
                 token = next_token(stream_);
                 if (token == "$end" || token.empty()) {
                     break;
-                } else if (std::string("01xz").find(token[0]) != std::string::npos) {
-                    auto value = std::string(1, token[0]);
-                    auto ident = std::string(token.substr(1));
-
-                    add_value(ident, value, true);
-                } else if (std::string("b").find(token[0]) != std::string::npos) {
-                    auto value = std::string(token.substr(1));
-                    auto ident = std::string(next_token(stream_));
-
-                    add_value(ident, value);
                 }
+                parse_value(token);
             }
+        } else {
+            parse_value(token);
         }
     }
 }
-- 
2.43.0


From cbe4944843146a10a85f082be35b10fb18f72826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:21 +0000
Subject: [PATCH 78/78] fix: no breakpoints in Verilator after detaching

---
 src/debug.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index e368b47..d6e2c33 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -548,6 +548,12 @@ PLI_INT32 eval_hgdb_on_clk(p_cb_data cb_data) {
     return 0;
 }
 
+PLI_INT32 eval_hgdb_on_time(p_cb_data cb_data) {
+    auto *debugger = reinterpret_cast<hgdb::Debugger *>(cb_data->user_data);
+    debugger->eval();
+    return 0;
+}
+
 void Debugger::handle_connection(const ConnectionRequest &req, uint64_t conn_id) {
     // if we have a debug cli flag, don't load the db
     bool success = true;
@@ -1470,6 +1476,12 @@ void Debugger::add_cb_clocks() {
         auto clock_signals = util::get_clock_signals(rtl, db_.get());
         bool r = rtl->monitor_signals(clock_signals, eval_hgdb_on_clk, this);
         if (!r || clock_signals.empty()) log_error("Failed to register evaluation callback");
+    } else if (!namespaces_.empty() && namespaces_.default_rtl()) {
+        // Verilator is evaluated at every time step. the callback has been registered when the
+        // runtime was initialized, but it is gone if the debugger has been detached since
+        auto *res = namespaces_.default_rtl()->add_call_back("eval_hgdb", cbNextSimTime,
+                                                             eval_hgdb_on_time, nullptr, this);
+        if (!res) log_error("Failed to register evaluation callback");
     }
 }
 
-- 
2.43.0


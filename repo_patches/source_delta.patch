From 617c72b76ca98dddbd6bdb2bcb91fc9d471d4010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 01/26] fix: construct +-4294967295 from int64 without a
 leading zero limb

---
 src/BigIntegerImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 1aca459..bbecef1 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -489,11 +489,11 @@ BigIntegerImpl & BigIntegerImpl::assign(std::int64_t i64) {
     }
 
     m_flags = i64 > 0 ? BNFlag::POSITIVE : BNFlag::NEGATIVE;
-    if (i64 < 0) i64 = -i64;
 
     std::uint64_t u64 = i64;
+    if (i64 < 0) u64 = 0 - u64;
 
-    int u32s = u64 < std::numeric_limits<std::uint32_t>::max() ? 1 : 2;
+    int u32s = u64 <= std::numeric_limits<std::uint32_t>::max() ? 1 : 2;
     m_mag.slice(0, u32s);
 
     std::uint32_t * p = reinterpret_cast<std::uint32_t*>(&u64);
-- 
2.43.0


From 75ac4189ff46234c136592ca1eafd43b09c27247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 02/26] fix: int64 > BigInteger compared the wrong way round

---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 6ee4f47..d867276 100755
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -332,7 +332,7 @@ bool pgbn::operator<= (std::int64_t left, const BigInteger & right)       { retu
 
 bool pgbn::operator>  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) > 0;  }
 bool pgbn::operator>  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) > 0;  }
-bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) > 0;  }
+bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) < 0;  }
 
 bool pgbn::operator>= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) >= 0; }
 bool pgbn::operator>= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) >= 0; }
-- 
2.43.0


From f921eb7199cdffb2cfdb46cff60639f3f598312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 03/26] fix: import of negative powers of 256 whose length is
 not a multiple of 4

---
 src/BigIntegerImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index bbecef1..32ad281 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -718,7 +718,8 @@ BigIntegerImpl & BigIntegerImpl::assign(const void * bin, SizeType len, bool lit
         for (; i < len && bytes[i] == 0; ++i);
 
         if (i == len) { // - pow2
-            m_mag.append(1);
+            if (len % 4 == 0) m_mag.append(1);
+            else m_mag[len / 4] = 1U << (8 * (len % 4));
             return *this;
         }          
 
-- 
2.43.0


From 65ef5187b8b42993117eef1b1ef26ceed07addb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 04/26] fix: growing a Slice revealed stale elements

---
 src/Slice.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Slice.h b/src/Slice.h
index 788ea54..d6d2a90 100644
--- a/src/Slice.h
+++ b/src/Slice.h
@@ -113,7 +113,10 @@ public:
             m_hi = m_lo;
             return *this;
         }
-        if (hi > count()) m_data->resize(m_lo + hi);
+        if (hi > count()) {
+            m_data->resize(m_lo + hi);
+            std::fill(m_data->begin() + m_hi, m_data->end(), T{}); // no stale data
+        }
         m_lo = m_lo + lo;
         m_hi = m_lo - lo + hi;
 
-- 
2.43.0


From e7c223cac11348bca68b7dd21a1012b25a917654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 05/26] fix: notBits left leading zeros and a signed zero

---
 src/BigIntegerImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 32ad281..06ab262 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1204,6 +1204,9 @@ void BigIntegerImpl::notBits() {
     auto & last = m_mag[len - 1];
     int leadingZeroCnt = util::clz(last);
     last = ~last & (MASK >> leadingZeroCnt);
+
+    detail::eraseZerosSuffix(m_mag); // 去除前导零
+    if (m_mag.count() == 0) beZero();
 }
 
 void BigIntegerImpl::shiftLeftAssign(std::uint64_t u64) {
-- 
2.43.0


From 56e38cd41d9b9138a0b860fe67b96742704d5ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 06/26] fix: reject number strings with an invalid digit inside
 a block

---
 src/BigIntegerImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 06ab262..fe98556 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -578,7 +578,7 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     
     std::uint32_t mag0;
     auto fistCov2U32Result = std::from_chars(cStr + pos, cStr + pos + fistBlockDigitCnt, mag0, radix);
-    if (fistCov2U32Result.ec != std::errc{}) { // to uint32_t出错
+    if (fistCov2U32Result.ec != std::errc{} || fistCov2U32Result.ptr != cStr + pos + fistBlockDigitCnt) { // to uint32_t出错
         PGBN_GetGlobalStatus() = ErrCode::NUMBER_STRING_PARSE2NUM_ERROR;
         ok && (*ok = false);
         return *this;
@@ -591,7 +591,7 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     std::uint32_t blockValue = 0;
     while (pos < slen) {
         auto toU32Result = std::from_chars(cStr + pos, cStr + pos + blockSize, blockValue, radix);
-        if (toU32Result.ec != std::errc{}) {
+        if (toU32Result.ec != std::errc{} || toU32Result.ptr != cStr + pos + blockSize) {
             PGBN_GetGlobalStatus() = ErrCode::NUMBER_STRING_PARSE2NUM_ERROR;
             ok && (*ok = false);
             return *this;
-- 
2.43.0


From 923c296cba50bfa36ab07dc5ce01019ff87736f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 07/26] fix: report success when parsing a string of zeros

---
 src/BigIntegerImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index fe98556..ddf471b 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -557,6 +557,8 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     pos = str.find_first_not_of('0', pos);
     if (pos == StringArg::npos) { // 没有非0位, 就是0
         beZero();
+        PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
+        ok && (*ok = true);
         return *this;
     }
 
-- 
2.43.0


From 84c06e0b58e6f2be997b535b3b0b775b2f97272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 08/26] fix: C binding reported every uint64 conversion as an
 overflow

---
 c/src/pgbn.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/pgbn.cpp b/c/src/pgbn.cpp
index ef690e8..d0d25f2 100644
--- a/c/src/pgbn.cpp
+++ b/c/src/pgbn.cpp
@@ -169,8 +169,8 @@ uint64_t pgbn_BigInteger_GetUInt64(pgbn_BigInteger_t * b) {
 
 uint64_t pgbn_BigInteger_GetUInt64WithChecking(pgbn_BigInteger_t * b, bool * ok) {
     if (
-        pgbn_BigInteger_CmpWithI64(b, std::numeric_limits<std::uint64_t>::max()) > 0 ||
-        pgbn_BigInteger_CmpWithI64(b, std::numeric_limits<std::uint64_t>::min()) < 0
+        b->impl->flagsContains(pgbn::BNFlag::NEGATIVE) ||
+        b->impl->getMagU32Count() > 2
     ) {
         *pgbn::Status::getInstance() = pgbn::ErrCode::ARITHMETIC_OVERFLOW;
         ok && (*ok = false);
-- 
2.43.0


From 69d8b5eaf7328d24d27d48289367b9650527b4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 09/26] fix: <=, > and >= were parsed as <

---
 src/infixExpr/ExprParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index a26097f..1b13dc6 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -83,11 +83,11 @@ ExprNode * ExprParser::parseCmp() {
         if (consumeToken(TokenType::LT))
             node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
         else if (consumeToken(TokenType::LE))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::LE, node, parseShift());
         else if (consumeToken(TokenType::GT))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::GT, node, parseShift());
         else if (consumeToken(TokenType::GE))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::GE, node, parseShift());
         else return node;
     }
     return nullptr;
-- 
2.43.0


From cdbff416daacb10ddad374c3952596d8164d70cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 10/26] fix: chained == and != dropped everything after the
 first

---
 src/infixExpr/ExprParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 1b13dc6..4f820d6 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -72,7 +72,7 @@ ExprNode * ExprParser::parseEqu() {
             node = m_pNodePool->newBinOpNode(TokenType::EQU, node, parseCmp());
         else if (consumeToken(TokenType::NEQU))
             node = m_pNodePool->newBinOpNode(TokenType::NEQU, node, parseCmp());
-        return node;
+        else return node;
     }
     return nullptr;
 }
-- 
2.43.0


From 2a73ae21a2573a5a81dcf34512787944f07abcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 11/26] fix: evaluate the % operator

---
 src/infixExpr/ExprTree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 5697f2f..56c3212 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -52,6 +52,11 @@ static Value binOpEvalCallback(ExprNode * node, bool peval) {
         lOpAssRAndReturn(mul);
     case TokenType::DIV :
         lOpAssRAndReturn(div);
+    case TokenType::MOD : {
+        Value q;
+        left.modAssignAndQuotient(right, q);
+        return left;
+    }
     case TokenType::SHIFTLEFT :
         left.shiftLeftAssign(right.toU64());
         return left;
-- 
2.43.0


From f63acd6c4144033e4254969f05bad0f1dcdc2e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 12/26] fix: x ** 0 is 1

---
 src/infixExpr/ExprTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 56c3212..79082a8 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -66,7 +66,7 @@ static Value binOpEvalCallback(ExprNode * node, bool peval) {
     case TokenType::POW :
         // TODO: Opt it
         if (right.isZero()) {
-            return Value(0);
+            return Value(1);
         }
         {
             auto res = Value(1);
-- 
2.43.0


From aaceb3a04a5ef2518a42d75b7fe1a0d4fd47c6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 13/26] fix: tokenizer looped forever on trailing white space

---
 src/infixExpr/Token.h | 1 +
 src/infixExpr/fwd.h   | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 680c650..2182bf4 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -59,6 +59,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
     while (!stream.eof()) {
         // 跳过空白符
         utils::skipWhiteChar(stream);
+        if (stream.eof()) break;
 
         // 解析
         char ch = stream.get();
diff --git a/src/infixExpr/fwd.h b/src/infixExpr/fwd.h
index 5661529..177b329 100644
--- a/src/infixExpr/fwd.h
+++ b/src/infixExpr/fwd.h
@@ -113,7 +113,7 @@ template<typename STREAM>
 void skipWhiteChar(STREAM & stream) {
     // ' ' '\n' '\r' '\t'
     char ch = stream.peek();
-    while (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t') {
+    while (!stream.eof() && (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t')) {
         stream.get();
         ch = stream.peek();
     }
@@ -127,7 +127,7 @@ template<typename STREAM>
 void skipWhiteChar(STREAM & stream) {
     // ' ' '\n' '\r' '\t'
     char ch = stream.peek();
-    while (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t') {
+    while (!stream.eof() && (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t')) {
         stream.get();
         ch = stream.peek();
     }
-- 
2.43.0


From 6a66bff3e2ac164388aef7af26c7efc6259fa519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 14/26] fix: upper-case digits after the first ended a literal

---
 src/infixExpr/Token.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 2182bf4..bd4fcc5 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -222,7 +222,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     }
 
                     if (!onlyZero) {
-                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalBeforeDot.push_back(ch);
                         if (ch == '.') {
                             PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL;
@@ -231,11 +231,11 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     }
                 } else {
                     literalBeforeDot.push_back(ch);
-                    for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                    for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                         literalBeforeDot.push_back(ch);
                     if (ch == '.') {
                         stream.get();
-                        for (ch = std::tolower(stream.get()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                        for (ch = std::tolower(stream.get()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalAfterDot.push_back(ch);
                     }
 
-- 
2.43.0


From 49d90cf3c487ff7027c8d683551c6e6e60d96807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 15/26] fix: eval read past the end of its string_view

---
 src/eval.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 434c1dd..db8e67f 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -11,7 +11,8 @@ using namespace pgbn::expr;
 using namespace pgbn::infixExpr;
 
 static inline ExprNode * parseString(const StringArg &str, NodePool *nodePool) {
-    StringReadStream testSrc1Stream(str.data());
+    const std::string src(str.data(), str.size()); // str may not be null-terminated
+    StringReadStream testSrc1Stream(src);
     ExprParser parser(testSrc1Stream, *Hooks::getInstance(), nodePool);
     return parser.parse();
 }
-- 
2.43.0


From 2cc1a98b8b2a0dc3062e5a7af27063f39d6adcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 16/26] fix: malformed expressions crashed the parser or were
 half evaluated

---
 src/eval.cpp                 |  4 ++--
 src/infixExpr/ExprParser.cpp |  8 +++++---
 src/infixExpr/Token.h        | 19 ++++++++++++-------
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index db8e67f..48e894b 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -22,7 +22,7 @@ Int pgbn::expr::eval(const StringArg &expr, Status *status) {
     NodePool nodePool;
     auto *root = parseString(expr, &nodePool);
     if (!root) {
-        (*status) = ~ErrCode::SUCCESS; // FIXME: Temp
+        (*status) = ErrCode::PARSE_INFIXEXPR_BAD_TOKEN;
         return Int{};
     }
     return BigInteger(std::make_unique<BigIntegerImpl>(root->evalCallback(root, false)));
@@ -36,7 +36,7 @@ Int pgbn::expr::peval(const StringArg &expr, int threads, Status *status) {
     NodePool nodePool;
     auto *root = parseString(expr, &nodePool);
     if (!root) {
-        (*status) = ~ErrCode::SUCCESS; // FIXME: Temp
+        (*status) = ErrCode::PARSE_INFIXEXPR_BAD_TOKEN;
         return Int{};
     }
 
diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 4f820d6..b327911 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -23,7 +23,9 @@ ExprParser::ExprParser() = default;
 
 // public functions
 ExprNode * ExprParser::parse() {
-    return parseExpr();
+    Node * root = parseExpr(); CKERR();
+    if (m_currTokenIndex + 1 != m_tokens.size()) BADTOK(TokenType::TAIL, "unexpected token");
+    return root;
 }
 
 // private functions
@@ -176,14 +178,14 @@ ExprNode * ExprParser::parsePrim() {
         if (!consumeToken(TokenType::LEFTBRACKET)) BADTOK(TokenType::LEFTBRACKET, "Expected '()' To Call Function");
         return parseFuncCall(temp.pSymbol);
     }
-    return nullptr;
+    BADTOK(TokenType::LITERAL, "expected operand");
 }
 
 ExprNode * ExprParser::parseFuncCall(SymbolTable::Symbol * symbol) {
     std::vector<Node*> argNodes;
     while (!consumeToken(TokenType::RIGHTBRACKET)) {
         if (argNodes.size() > 0 && !consumeToken(TokenType::COMMA)) BADTOK(TokenType::COMMA, "Expected ','");
-        argNodes.push_back(parseExpr());
+        argNodes.push_back(parseExpr()); CKERR();
     }
     return m_pNodePool->newFunctionCallNode(symbol, std::move(argNodes));
 }
diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index bd4fcc5..416f1ed 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -55,6 +55,11 @@ struct Token {
 template<typename STREAM>
 inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // FIXME: vector<Token> -> Lazy-Calcu(getNextToken)
     std::vector<Token> res;
+    const auto fail = [&res]() { // leave an INVALID token before the terminator
+        res.back().type = TokenType::INVALID;
+        res.push_back(Token{});
+        return res;
+    };
 
     while (!stream.eof()) {
         // 跳过空白符
@@ -163,7 +168,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                 SET_TOKEN_DEBUG_INFO("==");
             } else {
                 PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_EQU_INVALID;
-                return res;
+                return fail();
             }
             break;
         case '(' :
@@ -226,7 +231,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                             literalBeforeDot.push_back(ch);
                         if (ch == '.') {
                             PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL;
-                            return res;
+                            return fail();
                         }
                     }
                 } else {
@@ -243,14 +248,14 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
 
                 if (!(radix >= 2 && radix <= 36)) {
                     PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_RADIX_INVALID;
-                    return res;
+                    return fail();
                 }
 
                 tokenType = TokenType::LITERAL;
                 tokenVal = Value{};
                 if (!hooks.literal2Value || !hooks.literal2Value(tokenVal, radix, literalBeforeDot, literalAfterDot)) {
                     PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR;
-                    return res;
+                    return fail();
                 }
                 SET_TOKEN_DEBUG_INFO(pgfmt::format("Literval(Base {0}) : {1}.{2} (Value : {3})", radix, literalBeforeDot, literalAfterDot, tokenVal));
             } else if (std::isalpha(ch) || ch == '_') { // 内建常量或内建函数
@@ -263,13 +268,13 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                 SymbolTable::Symbol * pSymbol = SymbolTable::getInstance()->get(symbolName);
                 if (pSymbol == nullptr) { // UndefinedSymbol
                     PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_SYMBOL_UNDEFINED;
-                    return res;
+                    return fail();
                 } else {
                     if (pSymbol->is<Func>()) tokenType = TokenType::BUILTINFUNC;
                     else if (pSymbol->is<Value>()) tokenType = TokenType::BUILTINCONSTANT;
                     else { // InvalidBuiltinSymbol
                         PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BUILTIN_SYMBOL_INVALID;
-                        return res;
+                        return fail();
                     }
                     tokenPSymbol = pSymbol;
                 }
@@ -280,7 +285,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                 ));
             } else {
                 PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_CHAR_INVALID;
-                return res;
+                return fail();
             }
             break;
         }
-- 
2.43.0


From 6cd28134ba9d16481f54977e5ccb2a5df8cb4a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 17/26] fix: report a builtin call with the wrong number of
 arguments

---
 src/errInfos.cpp           | 3 ++-
 src/infixExpr/ExprTree.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/errInfos.cpp b/src/errInfos.cpp
index 24c02c7..7168976 100644
--- a/src/errInfos.cpp
+++ b/src/errInfos.cpp
@@ -45,7 +45,8 @@ const ErrInfo errInfos[] = {
     { ErrCode::PARSE_INFIXEXPR_RADIX_INVALID          , "[PGBN-Status: Error]Radix Invalid(Requires 2~36)"           , pgbn::detail::debugPrint        },
     { ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR      , "[PGBN-Status: Error]Parse Literal To Number Error"          , pgbn::detail::debugPrint        },
     { ErrCode::PARSE_INFIXEXPR_EQU_INVALID            , "[PGBN-Status: Error]Expected =="                            , pgbn::detail::debugPrint        },
-    { ErrCode::PARSE_INFIXEXPR_BAD_TOKEN              , "[PGBN-Status: Error]Bad Token"                              , pgbn::detail::debugPrint        }
+    { ErrCode::PARSE_INFIXEXPR_BAD_TOKEN              , "[PGBN-Status: Error]Bad Token"                              , pgbn::detail::debugPrint        },
+    { ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH , "[PGBN-Status: Error]Builtin Function Call Not Match"    , pgbn::detail::debugPrint        }
 }; 
 const SizeType errInfoCount = sizeof(errInfos) / sizeof(*errInfos);
 
diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 79082a8..8f5af43 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -125,7 +125,7 @@ static Value valEvalCallback(ExprNode * node, bool) {
 static Value builtinFuncEvalCallback(ExprNode * node, bool peval) {
     PGZXB_DEBUG_ASSERT(node->nodeType == ExprNode::NodeType::BUILTINFUNC);
     Func func = node->symbol->as<Func>();
-    if (func.argCount != -1 && static_cast<SizeType>(func.argCount) != node->children.size()) PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH;
+    if (func.argCount != -1 && static_cast<SizeType>(func.argCount) != node->children.size()) { PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH; return {}; }
     PGZXB_DEBUG_ASSERT(!!func.nativeCall);
     std::vector<Value> args;
     for (auto * ch : node->children) { 
-- 
2.43.0


From d65f47345109d6f18c29d3a4cb8ac820b1c716cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 18/26] fix: every new thread re-registered the default error
 table

---
 src/Status.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Status.cpp b/src/Status.cpp
index b94f570..3e7bcad 100644
--- a/src/Status.cpp
+++ b/src/Status.cpp
@@ -52,7 +52,7 @@ void Status::setContext(const std::any & context) {
 // static functions
 Status * Status::getInstance() {
     static thread_local Status s_ins;
-    static thread_local bool h = pgbn_reg();
+    static bool h = pgbn_reg(); // once per process
     PGZXB_UNUSED(h);
 
     return &s_ins;
-- 
2.43.0


From f372ed8fb27eeba07b5eb60cae8015afefbd1f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 19/26] fix: lost wake-up when a thread pool is destroyed

---
 src/parallel/SimpleConcurrenceQueue.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parallel/SimpleConcurrenceQueue.h b/src/parallel/SimpleConcurrenceQueue.h
index f5d8c49..126123b 100644
--- a/src/parallel/SimpleConcurrenceQueue.h
+++ b/src/parallel/SimpleConcurrenceQueue.h
@@ -72,7 +72,10 @@ public:
     }
 
     void notifyAllPop() {
-        m_alwaysPop = true;
+        {
+            std::lock_guard<std::mutex> _(m_mutex);
+            m_alwaysPop = true;
+        }
         m_cond.notify_all();
     }
     
-- 
2.43.0


From a870a9181b1b852bcf6327ce27087bc03db5941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 20/26] fix: reciprocal of zero fraction succeeded with a zero
 denominator

---
 src/Fraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index cfad1c6..9304dcd 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -83,7 +83,7 @@ public:
     }
 
     Fraction reciprocal(bool *ok = nullptr) const {
-        if (m_den == 0) {
+        if (m_num == 0) {
             if (ok) *ok = false;
             PGBN_GetGlobalStatus() = ErrCode::DIVBY0;
             return {};
-- 
2.43.0


From 2110e11e1fcc257f4ad306ef9295cb7b9916f905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 21/26] fix: decimal expansion lost leading zeros and the sign

---
 src/Fraction.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index 9304dcd..0ba8ac1 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -73,13 +73,13 @@ public:
         std::string digitalDigitsStr;
         if(maxDecimalDigitCount > 0) {
             auto mul = BigInteger("1" + std::string(maxDecimalDigitCount, '0'));
+            auto digits = (q * mul / m_den.absoluted()).toString();
             digitalDigitsStr.append(".")
-                .append((q * mul / m_den).toString());
-            if (maxDecimalDigitCount > digitalDigitsStr.size()) {
-                digitalDigitsStr.append(std::string(maxDecimalDigitCount - digitalDigitsStr.size(), '0'));
-            }
+                .append(std::string(maxDecimalDigitCount - digits.size(), '0'))
+                .append(digits);
         }
-        return (m_num / m_den).toString(10) + digitalDigitsStr;
+        return (m_num.cmp(0) * m_den.cmp(0) < 0 ? "-" : "") +
+               (m_num.absoluted() / m_den.absoluted()).toString(10) + digitalDigitsStr;
     }
 
     Fraction reciprocal(bool *ok = nullptr) const {
-- 
2.43.0


From a340436975fe5c2f6cec9290d7ed03c0e2652b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 22/26] fix: gcd of negative operands

---
 src/algorithm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index d0307f0..8c2af23 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -5,8 +5,8 @@ PGBN_NAMESPACE_START
 namespace algo {
 
 BigInteger gcd(const BigInteger &x, const BigInteger &y) {
-    BigInteger a = x;
-    BigInteger b = y;
+    BigInteger a = x.absoluted();
+    BigInteger b = y.absoluted();
 
     if(a > b) std::swap(a, b);
     while(a > 0) {
-- 
2.43.0


From 0c7ef0285608f54711de3302cfb5dc96ccd6f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:19 +0000
Subject: [PATCH 23/26] fix: quotient and remainder of a long division kept a
 stale cached word index

---
 src/BigIntegerImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index ddf471b..6f76b78 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1557,6 +1557,8 @@ void BigIntegerImpl::knuthDivImpl(BigIntegerImpl & q, BigIntegerImpl & r, const
     }
 
     // init result-q, result-r
+    q.beginWrite(); // free-cache
+    r.beginWrite(); // free-cache
     q.setFlagsToPositive();
     r.setFlagsToPositive();
 
-- 
2.43.0


From 4c48906971b93cf1f3a5524e245116f52e38e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 24/26] fix: the character after a literal's fraction was
 swallowed (12.5+3 evaluated to 12)

---
 src/infixExpr/Token.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 416f1ed..b28c73a 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -240,7 +240,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                         literalBeforeDot.push_back(ch);
                     if (ch == '.') {
                         stream.get();
-                        for (ch = std::tolower(stream.get()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
+                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalAfterDot.push_back(ch);
                     }
 
-- 
2.43.0


From 179865129b16e142514133f7d5a51c96d1bc83c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:20 +0000
Subject: [PATCH 25/26] fix: library error codes are registered before the
 first registration or lookup

---
 src/Status.cpp | 14 ++++++++------
 src/Status.h   |  3 +++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/Status.cpp b/src/Status.cpp
index 3e7bcad..58b1b9e 100644
--- a/src/Status.cpp
+++ b/src/Status.cpp
@@ -6,13 +6,13 @@
 
 using namespace pgbn;
 
-static bool pgbn_reg() {
+bool Status::registeErrInfos() {
     for (SizeType i = 0; i < errInfoCount; ++i) {
         auto & errInfo = errInfos[i];
-        Status::registe(
+        Status::registeImpl(
             errInfo.code,
             errInfo.info,
-            errInfo.callback, errInfo.code, errInfo.info
+            std::bind(errInfo.callback, errInfo.code, errInfo.info)
         );
     }
     return errInfoCount % 2 == 0;
@@ -23,13 +23,13 @@ std::unordered_map<Enum, std::tuple<std::string, Callback>> Status::s_mp;
 
 // member functions
 Status::Status(Enum no) noexcept : m_errno(no) {
-    PGZXB_DEBUG_ASSERT_EX("no not exsits", s_mp.find(no) != s_mp.end());
+    PGZXB_DEBUG_ASSERT_EX("no not exsits", Status::find(no));
 
     callback(no);
 }
 
 Status & Status::operator= (Enum no) noexcept {
-    PGZXB_DEBUG_ASSERT_EX("no not exsits", s_mp.find(no) != s_mp.end());
+    PGZXB_DEBUG_ASSERT_EX("no not exsits", Status::find(no));
 
     m_errno = no;
     callback(no);
@@ -52,7 +52,7 @@ void Status::setContext(const std::any & context) {
 // static functions
 Status * Status::getInstance() {
     static thread_local Status s_ins;
-    static bool h = pgbn_reg(); // once per process
+    static bool h = registeErrInfos(); // once per process
     PGZXB_UNUSED(h);
 
     return &s_ins;
@@ -63,6 +63,7 @@ void Status::registeImpl(Enum no, const StringArg & info, Callback callback) {
 }
 
 void Status::callback(Enum no) {
+    Status::getInstance(); // 确保默认错误码已注册
     auto iter = s_mp.find(no); // no不存在的情况已被上层劫持
     if (!!std::get<1>(iter->second)) {
         std::get<1>(iter->second)(); // call
@@ -70,6 +71,7 @@ void Status::callback(Enum no) {
 }
 
 bool Status::find(Enum no, std::tuple<std::string, Callback> ** t) {
+    Status::getInstance(); // 确保默认错误码已注册
     auto iter = s_mp.find(no);
     if (iter == s_mp.end()) {
         t && (*t = nullptr);
diff --git a/src/Status.h b/src/Status.h
index 9db867e..02ea604 100644
--- a/src/Status.h
+++ b/src/Status.h
@@ -38,11 +38,13 @@ public:
 
     template<typename E>
     static void registe(E no, const StringArg & info) {
+        Status::getInstance(); // 默认错误码先于用户注册
         Status::registeImpl(static_cast<Enum>(no), info, NULL_CALLBACK);
     }
 
     template<typename E, typename FUNC, typename ... ARGS> // 线程不安全; 覆盖;
     static void registe(E no, const StringArg & info, FUNC && callback, ARGS && ... args) {
+        Status::getInstance(); // 默认错误码先于用户注册
         Status::registeImpl(static_cast<Enum>(no), info, std::bind(std::forward<FUNC>(callback), std::forward<ARGS>(args)...));
     }
 
@@ -52,6 +54,7 @@ public:
 private:
     static std::unordered_map<Enum, std::tuple<std::string, Callback>> s_mp;
 
+    static bool registeErrInfos(); // 注册errInfos中的所有错误码
     static void registeImpl(Enum no, const StringArg & info, Callback callback);
 
     static void callback(Enum no);
-- 
2.43.0


From 3a99bb09563f36f487815d3c27c27bc089b1509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:30 +0000
Subject: [PATCH 26/26] fix: each thread of the C binding has its own global
 status handle

---
 c/src/pgbn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/pgbn.cpp b/c/src/pgbn.cpp
index d0d25f2..ffc2227 100644
--- a/c/src/pgbn.cpp
+++ b/c/src/pgbn.cpp
@@ -19,7 +19,7 @@ struct pgbn_BigInteger_t {
 
 // pgbn::Status
 pgbn_Status_t * pgbn_Status_GetGlobalInstance() {
-    static pgbn_Status_t ins;
+    static thread_local pgbn_Status_t ins;
     ins.status = pgbn::Status::getInstance();
     return &ins; 
 }
-- 
2.43.0


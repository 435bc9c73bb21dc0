From 9cb280d0e3d00f68ed4ef11ba661145ff77e3eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 01/56] fix: NOLINT without a list suppresses every warning of
 its line, not only the first

---
 src/SuppressionManager.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 7a6d9f2..136ca40 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -104,7 +104,6 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
 
     const LineNumber lineNumber = sm.getSpellingLineNumber(loc);
     if (suppressions.skipNextLine.count(lineNumber) > 0) {
-        suppressions.skipNextLine.erase(lineNumber);
         return true;
     }
     if (suppressions.checksToSkipByLine.find(LineAndCheckName(lineNumber, checkName)) != suppressions.checksToSkipByLine.cend())
-- 
2.43.0


From e43bfeba3a70dc9c0f9fa39d66e8f25e340a5816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 02/56] fix: honour every entry of a NOLINT list, also after a
 blank and inside a NOLINTBEGIN range

---
 src/SuppressionManager.cpp | 11 +++++++----
 src/SuppressionManager.h   |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 136ca40..7831a79 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -54,8 +54,8 @@ static std::vector<llvm::Regex> splitDisabledChecksText(const std::string &disab
 {
     std::vector<llvm::Regex> disabledChecksRegexes;
     for (const auto &split : clazy::splitString(disableText, ',')) {
-        if (split.find("clazy-") == 0) {
-            StringRef sanitizedCheckName = llvm::StringRef(split).substr(strlen("clazy-")).rtrim();
+        StringRef sanitizedCheckName = llvm::StringRef(split).trim();
+        if (sanitizedCheckName.consume_front("clazy-")) {
             disabledChecksRegexes.push_back(createRegexFromGlob(sanitizedCheckName));
         }
     }
@@ -109,8 +109,11 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
     if (suppressions.checksToSkipByLine.find(LineAndCheckName(lineNumber, checkName)) != suppressions.checksToSkipByLine.cend())
         return true;
 
-    if (auto it = suppressions.checkWildcardsToSkipByLine.find(lineNumber); it != suppressions.checkWildcardsToSkipByLine.end()) {
-        return it->second.match(checkName);
+    const auto [lineBegin, lineEnd] = suppressions.checkWildcardsToSkipByLine.equal_range(lineNumber);
+    if (std::any_of(lineBegin, lineEnd, [&checkName](const auto &lineAndRegex) {
+            return lineAndRegex.second.match(checkName);
+        })) {
+        return true;
     }
 
     for (const auto &rangeSuppression : suppressions.checkWildcardsRanges) {
diff --git a/src/SuppressionManager.h b/src/SuppressionManager.h
index 0106a01..089733a 100644
--- a/src/SuppressionManager.h
+++ b/src/SuppressionManager.h
@@ -45,7 +45,7 @@ public:
         std::set<unsigned> skipNextLine;
         std::set<CheckName> checksToSkip;
         std::set<LineAndCheckName> checksToSkipByLine;
-        std::unordered_map<LineNumber, llvm::Regex> checkWildcardsToSkipByLine;
+        std::unordered_multimap<LineNumber, llvm::Regex> checkWildcardsToSkipByLine;
         std::vector<CheckBeginAndEnd> checkWildcardsRanges;
     };
 
-- 
2.43.0


From 5f64751ff244d43ce7882d3048105c42dadcf378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 03/56] fix: a NOLINTBEGIN list naming only other tools' checks
 suppresses nothing, and nested ranges all count

---
 src/SuppressionManager.cpp | 12 +++++++-----
 src/SuppressionManager.h   |  1 +
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 7831a79..6b583e5 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -118,10 +118,12 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
 
     for (const auto &rangeSuppression : suppressions.checkWildcardsRanges) {
         if (rangeSuppression.begin <= lineNumber && rangeSuppression.end >= lineNumber) {
-            return rangeSuppression.checksToSkipWildcard.empty()
-                || std::ranges::any_of(rangeSuppression.checksToSkipWildcard, [&checkName](const llvm::Regex &regex) {
-                       return regex.match(checkName);
-                   });
+            const bool matches = rangeSuppression.allChecks || std::ranges::any_of(rangeSuppression.checksToSkipWildcard, [&checkName](const llvm::Regex &regex) {
+                                     return regex.match(checkName);
+                                 });
+            if (matches) {
+                return true;
+            }
         }
     }
 
@@ -174,7 +176,7 @@ void SuppressionManager::parseFile(FileID id, const SourceManager &sm, const cla
                 } else {
                     const auto [beginLineNumber, disabledChecks] = checkRangeStack.top();
                     checkRangeStack.pop();
-                    suppressions.checkWildcardsRanges.push_back(CheckBeginAndEnd{splitDisabledChecksText(disabledChecks), beginLineNumber, lineNumber});
+                    suppressions.checkWildcardsRanges.push_back(CheckBeginAndEnd{splitDisabledChecksText(disabledChecks), beginLineNumber, lineNumber, disabledChecks.empty()});
                 }
 
             } else {
diff --git a/src/SuppressionManager.h b/src/SuppressionManager.h
index 089733a..a5ff985 100644
--- a/src/SuppressionManager.h
+++ b/src/SuppressionManager.h
@@ -38,6 +38,7 @@ public:
         std::vector<llvm::Regex> checksToSkipWildcard;
         LineNumber begin;
         LineNumber end;
+        bool allChecks; // NOLINTBEGIN without a list
     };
 
     struct Suppressions {
-- 
2.43.0


From 31124a59a4d4fc934e8ad3c4826bc6065fc9e173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 04/56] fix: a suppression comment that ends the file without a
 newline counts

---
 src/SuppressionManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 6b583e5..ce731e5 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -150,7 +150,9 @@ void SuppressionManager::parseFile(FileID id, const SourceManager &sm, const cla
     std::stack<std::pair<LineNumber, std::string>> checkRangeStack;
 
     Token token;
-    while (!lexer.LexFromRawLexer(token)) {
+    bool atEnd = false;
+    while (!atEnd) {
+        atEnd = lexer.LexFromRawLexer(token); // also true for a comment that ends the file without a newline
         if (token.getKind() != tok::comment) {
             continue;
         }
-- 
2.43.0


From dd330bb67f147331839be2cbe406e377dd07e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 05/56] fix: globs of NOLINT lists match the whole check name,
 so that NOLINT(*) covers clazy's checks

---
 src/SuppressionManager.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index ce731e5..1360098 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -55,7 +55,7 @@ static std::vector<llvm::Regex> splitDisabledChecksText(const std::string &disab
     std::vector<llvm::Regex> disabledChecksRegexes;
     for (const auto &split : clazy::splitString(disableText, ',')) {
         StringRef sanitizedCheckName = llvm::StringRef(split).trim();
-        if (sanitizedCheckName.consume_front("clazy-")) {
+        if (!sanitizedCheckName.empty()) {
             disabledChecksRegexes.push_back(createRegexFromGlob(sanitizedCheckName));
         }
     }
@@ -110,16 +110,17 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
         return true;
 
     const auto [lineBegin, lineEnd] = suppressions.checkWildcardsToSkipByLine.equal_range(lineNumber);
-    if (std::any_of(lineBegin, lineEnd, [&checkName](const auto &lineAndRegex) {
-            return lineAndRegex.second.match(checkName);
+    const std::string prefixedName = "clazy-" + checkName; // as in clang-tidy's list of checks
+    if (std::any_of(lineBegin, lineEnd, [&prefixedName](const auto &lineAndRegex) {
+            return lineAndRegex.second.match(prefixedName);
         })) {
         return true;
     }
 
     for (const auto &rangeSuppression : suppressions.checkWildcardsRanges) {
         if (rangeSuppression.begin <= lineNumber && rangeSuppression.end >= lineNumber) {
-            const bool matches = rangeSuppression.allChecks || std::ranges::any_of(rangeSuppression.checksToSkipWildcard, [&checkName](const llvm::Regex &regex) {
-                                     return regex.match(checkName);
+            const bool matches = rangeSuppression.allChecks || std::ranges::any_of(rangeSuppression.checksToSkipWildcard, [&prefixedName](const llvm::Regex &regex) {
+                                     return regex.match(prefixedName);
                                  });
             if (matches) {
                 return true;
-- 
2.43.0


From c559f333ccfe67e5bf6f00ef70e78fb2d10e7393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 06/56] fix: drop queued manual-intervention warnings together
 with the suppressed warning they belong to

---
 src/checkbase.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index f353df4..3e1b3fd 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -26,6 +26,7 @@
 #include <llvm/Support/raw_ostream.h>
 
 #include <memory>
+#include <utility>
 #include <vector>
 
 namespace clang
@@ -223,6 +224,9 @@ std::string CheckBase::tag() const
 
 void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const std::vector<FixItHint> &fixits, bool printWarningTag)
 {
+    // Queued for this warning, so they are dropped with it when it's suppressed or filtered
+    const auto queuedWarnings = std::exchange(m_queuedManualInterventionWarnings, {});
+
     if (m_context->suppressionManager.isSuppressed(m_name, loc, sm(), lo())) {
         return;
     }
@@ -248,7 +252,7 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
 
     reallyEmitWarning(loc, error, fixits);
 
-    for (const auto &l : m_queuedManualInterventionWarnings) {
+    for (const auto &l : queuedWarnings) {
         std::string msg("FixIt failed, requires manual intervention: ");
         if (!l.second.empty()) {
             msg += ' ' + l.second;
@@ -256,8 +260,6 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
 
         reallyEmitWarning(l.first, msg + tag(), {});
     }
-
-    m_queuedManualInterventionWarnings.clear();
 }
 
 void CheckBase::emitInternalError(SourceLocation loc, std::string error)
-- 
2.43.0


From 6742a0af5828180b4f2a3487eb46915d792768f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 07/56] fix: a '%' in a warning's message is text and not a
 format directive (it crashed)

---
 src/checkbase.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index 3e1b3fd..26f0279 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -274,7 +274,14 @@ void CheckBase::reallyEmitWarning(clang::SourceLocation loc, const std::string &
         ? DiagnosticIDs::Error
         : DiagnosticIDs::Warning;
 
-    m_context->p_warningReporter(name(), loc, severity, error, fixits);
+    // The message becomes the diagnostic's format string, but isn't one: it may quote source code
+    std::string format;
+    format.reserve(error.size());
+    for (const char c : error) {
+        format.append(c == '%' ? 2 : 1, c);
+    }
+
+    m_context->p_warningReporter(name(), loc, severity, format, fixits);
 }
 
 void CheckBase::queueManualFixitWarning(clang::SourceLocation loc, const std::string &message)
-- 
2.43.0


From 24c75f0398cdb0d1ccc4720e7d5cec7f5a79768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 08/56] fix: decide only-qt for each translation unit, also
 with -DQT_CORE_LIB=1 and -UQT_CORE_LIB

---
 src/ClazyContext.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index c870795..62f6dbf 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -171,16 +171,14 @@ void ClazyContext::registerPreprocessorCallbacks(clang::Preprocessor &pp)
 
 bool ClazyContext::isQt() const
 {
-    static const bool s_isQt = [this] {
-        for (const auto &s : m_pp.Macros) {
-            if (s.first == "QT_CORE_LIB") {
-                return true;
-            }
+    bool isQt = false;
+    for (const auto &[macro, isUndef] : m_pp.Macros) { // In command line order, the last one wins
+        if (StringRef(macro).split('=').first == "QT_CORE_LIB") {
+            isQt = !isUndef;
         }
-        return false;
-    }();
+    }
 
-    return s_isQt;
+    return isQt;
 }
 std::string ClazyContext::qtNamespace() const
 {
-- 
2.43.0


From 2e25501a2c8be2a6694e59b1f1a12efdf96d6409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 09/56] fix: the clang-tidy module analyses every translation
 unit of a run, not only the first

---
 src/ClazyClangTidyModule.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ClazyClangTidyModule.cpp b/src/ClazyClangTidyModule.cpp
index 1573384..bf0cbf2 100644
--- a/src/ClazyClangTidyModule.cpp
+++ b/src/ClazyClangTidyModule.cpp
@@ -71,6 +71,9 @@ public:
         }
         m_allChecks.clear();
         delete clazyContext;
+
+        // All checks of a translation unit are destroyed before those of the next one are created
+        s_enabledChecks.clear();
     }
 
     void registerMatchers(ast_matchers::MatchFinder *Finder) override
-- 
2.43.0


From 20bb015593d608e613f50f1b9bb0702e5a6c3f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 10/56] fix: clazy-standalone exports the fixes of all
 translation units even if one can't be processed

---
 src/ClazyContext.cpp        | 10 +++-------
 src/ClazyStandaloneMain.cpp |  9 ++++++++-
 src/FixItExporter.cpp       |  7 ++++++-
 src/FixItExporter.h         |  2 ++
 4 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index 62f6dbf..dcb0ca5 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -142,15 +142,11 @@ ClazyContext::~ClazyContext()
     delete accessSpecifierManager;
     delete parentMap;
 
-    static unsigned long count = 0;
-    count++;
-
     if (exporter) {
-        // With clazy-standalone we use the same YAML file for all translation-units, so only
-        // write out the last one. With clazy-plugin there's a YAML file per translation unit.
+        // With clazy-standalone we use the same YAML file for all translation-units, it's written
+        // once all of them were processed. With clazy-plugin there's a YAML file per translation unit.
         const bool isClazyPlugin = m_translationUnitPaths.empty();
-        const bool isLast = count == m_translationUnitPaths.size();
-        if (isLast || isClazyPlugin) {
+        if (isClazyPlugin) {
             exporter->Export();
         }
         delete exporter;
diff --git a/src/ClazyStandaloneMain.cpp b/src/ClazyStandaloneMain.cpp
index 88c46b3..d06d355 100644
--- a/src/ClazyStandaloneMain.cpp
+++ b/src/ClazyStandaloneMain.cpp
@@ -8,6 +8,7 @@
 
 #include "Clazy.h"
 #include "ClazyContext.h"
+#include "FixItExporter.h"
 
 #include "checks.json.h"
 
@@ -223,5 +224,11 @@ int main(int argc, const char **argv)
 
     ClangTool tool(optionsParser.getCompilations(), optionsParser.getSourcePathList(), std::make_shared<PCHContainerOperations>(), fs);
 
-    return tool.run(new ClazyToolActionFactory(optionsParser.getSourcePathList()));
+    const int result = tool.run(new ClazyToolActionFactory(optionsParser.getSourcePathList()));
+
+    if (const std::string &fixesFile = s_exportFixes.getValue(); !fixesFile.empty()) {
+        FixItExporter::Export(fixesFile);
+    }
+
+    return result;
 }
diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 2e5fe40..28ccb89 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -176,11 +176,16 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
 }
 
 void FixItExporter::Export()
+{
+    Export(exportFixes);
+}
+
+void FixItExporter::Export(const std::string &fileName)
 {
     auto tuDiag = getTuDiag();
     if (!tuDiag.Diagnostics.empty()) {
         std::error_code EC;
-        llvm::raw_fd_ostream OS(exportFixes, EC, llvm::sys::fs::OF_None);
+        llvm::raw_fd_ostream OS(fileName, EC, llvm::sys::fs::OF_None);
         llvm::yaml::Output YAML(OS);
         YAML << getTuDiag();
     }
diff --git a/src/FixItExporter.h b/src/FixItExporter.h
index 7ac084b..821f7ac 100644
--- a/src/FixItExporter.h
+++ b/src/FixItExporter.h
@@ -34,6 +34,8 @@ public:
 
     void HandleDiagnostic(clang::DiagnosticsEngine::Level DiagLevel, const clang::Diagnostic &Info) override;
 
+    /// Writes what was recorded to @p fileName, unless nothing was
+    static void Export(const std::string &fileName);
     void Export();
 
     /// Emit a diagnostic via the adapted diagnostic client.
-- 
2.43.0


From dc44e910a143bdc9b8871b29c87aee2e1368406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 11/56] fix: honour -Werror in the clang-tidy module for
 warnings found while preprocessing

---
 src/checkbase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index 26f0279..eed8627 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -269,8 +269,8 @@ void CheckBase::emitInternalError(SourceLocation loc, std::string error)
 
 void CheckBase::reallyEmitWarning(clang::SourceLocation loc, const std::string &error, const std::vector<FixItHint> &fixits)
 {
-    auto severity = (m_context->treatAsError(m_name)
-                     || (m_context->astContext && m_context->astContext->getDiagnostics().getWarningsAsErrors() && !m_context->userDisabledWError()))
+    // Not through the ASTContext, which clang-tidy doesn't have yet while preprocessing
+    auto severity = (m_context->treatAsError(m_name) || (sm().getDiagnostics().getWarningsAsErrors() && !m_context->userDisabledWError()))
         ? DiagnosticIDs::Error
         : DiagnosticIDs::Warning;
 
-- 
2.43.0


From 82fc4e7c56b6f9b35cffa1f208c19ecd3011a6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 12/56] fix: an error that's a promoted clazy warning doesn't
 stop the analysis of the statements after it

---
 src/ClazyContext.cpp     |  2 ++
 src/ClazyContext.h       | 23 +++++++++++++++++++++++
 src/ClazyVisitHelper.cpp |  2 +-
 src/checkbase.cpp        |  2 +-
 4 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index dcb0ca5..d0619bd 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -110,6 +110,8 @@ ClazyContext::ClazyContext(clang::ASTContext *context,
         }
     }))
     , m_isClangTidy(isClangTidy)
+    , m_hasCompileErrors(sm.getDiagnostics().hasUnrecoverableErrorOccurred())
+    , m_errorTrap(sm.getDiagnostics())
 {
     if (!headerFilter.empty()) {
         headerFilterRegex = std::make_unique<llvm::Regex>(headerFilter);
diff --git a/src/ClazyContext.h b/src/ClazyContext.h
index d532e2a..314bb0e 100644
--- a/src/ClazyContext.h
+++ b/src/ClazyContext.h
@@ -180,6 +180,25 @@ public:
 
     bool isQt() const;
 
+    /**
+     * Returns whether the code being compiled has errors. Clazy's own diagnostics don't count, even if promoted to errors.
+     */
+    bool hasCompileErrors() const
+    {
+        return m_hasCompileErrors || m_errorTrap.hasUnrecoverableErrorOccurred();
+    }
+
+    void reportWarning(const std::string &checkName,
+                       clang::SourceLocation loc,
+                       clang::DiagnosticIDs::Level level,
+                       const std::string &error,
+                       const std::vector<clang::FixItHint> &fixits) const
+    {
+        m_hasCompileErrors = hasCompileErrors();
+        p_warningReporter(checkName, loc, level, error, fixits);
+        m_errorTrap.reset(); // So it doesn't count what we just reported
+    }
+
     std::string qtNamespace() const;
 
     /**
@@ -210,6 +229,10 @@ public:
     const WarningReporter p_warningReporter;
 
     const bool m_isClangTidy;
+
+private:
+    mutable bool m_hasCompileErrors;
+    mutable clang::DiagnosticErrorTrap m_errorTrap;
 };
 
 #endif
diff --git a/src/ClazyVisitHelper.cpp b/src/ClazyVisitHelper.cpp
index d263a27..e438568 100644
--- a/src/ClazyVisitHelper.cpp
+++ b/src/ClazyVisitHelper.cpp
@@ -57,7 +57,7 @@ bool VisitStmt(Stmt *stmt, ClazyContext *context, const Visitors &visitors)
     }
 
     if (!context->parentMap) {
-        if (context->astContext->getDiagnostics().hasUnrecoverableErrorOccurred()) {
+        if (context->hasCompileErrors()) {
             return false; // ParentMap sometimes crashes when there were errors. Doesn't like a botched AST.
         }
 
diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index eed8627..c3f9954 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -281,7 +281,7 @@ void CheckBase::reallyEmitWarning(clang::SourceLocation loc, const std::string &
         format.append(c == '%' ? 2 : 1, c);
     }
 
-    m_context->p_warningReporter(name(), loc, severity, format, fixits);
+    m_context->reportWarning(name(), loc, severity, format, fixits);
 }
 
 void CheckBase::queueManualFixitWarning(clang::SourceLocation loc, const std::string &message)
-- 
2.43.0


From adb6901a8ea6a9af72545fda5418da8d86e39e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 13/56] fix: only-qt also silences the warnings found while
 preprocessing a non-Qt file

---
 src/Clazy.cpp      | 6 +++---
 src/ClazyContext.h | 5 +++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Clazy.cpp b/src/Clazy.cpp
index 04b9217..c2fa7b1 100644
--- a/src/Clazy.cpp
+++ b/src/Clazy.cpp
@@ -75,7 +75,7 @@ void ClazyASTConsumer::HandleTranslationUnit(ASTContext &ctx)
         m_context->exporter->BeginSourceFile(clang::LangOptions());
     }
 
-    if ((m_context->options & ClazyContext::ClazyOption_OnlyQt) && !m_context->isQt()) {
+    if (m_context->isIgnoredNonQtFile()) {
         return;
     }
 
@@ -115,7 +115,7 @@ std::unique_ptr<clang::ASTConsumer> ClazyASTAction::CreateASTConsumer(CompilerIn
         for (const auto &requestedCheck : m_checks) {
             auto *check = requestedCheck.factory();
             check->m_context = m_context;
-            if (requestedCheck.options & RegisteredCheck::Option_PreprocessorCallbacks) {
+            if ((requestedCheck.options & RegisteredCheck::Option_PreprocessorCallbacks) && !m_context->isIgnoredNonQtFile()) {
                 check->enablePreProcessorCallbacks(ci.getPreprocessor());
             }
             astConsumer->addCheck({check, requestedCheck});
@@ -346,7 +346,7 @@ std::unique_ptr<ASTConsumer> ClazyStandaloneASTAction::CreateASTConsumer(Compile
     for (const auto &requestedCheck : requestedChecks) {
         auto *check = requestedCheck.factory();
         check->m_context = context;
-        if (requestedCheck.options & RegisteredCheck::Option_PreprocessorCallbacks) {
+        if ((requestedCheck.options & RegisteredCheck::Option_PreprocessorCallbacks) && !context->isIgnoredNonQtFile()) {
             check->enablePreProcessorCallbacks(ci.getPreprocessor());
         }
         astConsumer->addCheck({check, requestedCheck});
diff --git a/src/ClazyContext.h b/src/ClazyContext.h
index 314bb0e..d6eab7a 100644
--- a/src/ClazyContext.h
+++ b/src/ClazyContext.h
@@ -180,6 +180,11 @@ public:
 
     bool isQt() const;
 
+    bool isIgnoredNonQtFile() const
+    {
+        return (options & ClazyOption_OnlyQt) && !isQt();
+    }
+
     /**
      * Returns whether the code being compiled has errors. Clazy's own diagnostics don't count, even if promoted to errors.
      */
-- 
2.43.0


From 30b15676f52c38758b016ea5e374f0261a8dbfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 14/56] fix: clazy-standalone skips generated qmlcache files,
 as the plugin and the clang-tidy module do

---
 src/Clazy.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Clazy.cpp b/src/Clazy.cpp
index c2fa7b1..0189a2b 100644
--- a/src/Clazy.cpp
+++ b/src/Clazy.cpp
@@ -317,7 +317,7 @@ ClazyStandaloneASTAction::ClazyStandaloneASTAction(const std::string &checkList,
 {
 }
 
-std::unique_ptr<ASTConsumer> ClazyStandaloneASTAction::CreateASTConsumer(CompilerInstance &ci, llvm::StringRef)
+std::unique_ptr<ASTConsumer> ClazyStandaloneASTAction::CreateASTConsumer(CompilerInstance &ci, llvm::StringRef InFile)
 {
     auto *cm = CheckManager::instance();
 
@@ -343,6 +343,10 @@ std::unique_ptr<ASTConsumer> ClazyStandaloneASTAction::CreateASTConsumer(Compile
     context->registerPreprocessorCallbacks(ci.getPreprocessor());
     auto *astConsumer = new ClazyASTConsumer(context);
 
+    if (!clazy::VisitHelper::shouldCheckFile(InFile)) {
+        return std::unique_ptr<ASTConsumer>(astConsumer);
+    }
+
     for (const auto &requestedCheck : requestedChecks) {
         auto *check = requestedCheck.factory();
         check->m_context = context;
-- 
2.43.0


From 21d0818ac4eddf54a338485e4be4d11e7fe7a27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:14 +0000
Subject: [PATCH 15/56] fix: qproperty-type-mismatch crashed on a Q_PROPERTY
 written by another macro or without a name

---
 src/checks/manuallevel/qproperty-type-mismatch.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/checks/manuallevel/qproperty-type-mismatch.cpp b/src/checks/manuallevel/qproperty-type-mismatch.cpp
index 6ae66b0..5b77391 100644
--- a/src/checks/manuallevel/qproperty-type-mismatch.cpp
+++ b/src/checks/manuallevel/qproperty-type-mismatch.cpp
@@ -211,11 +211,14 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
     const CharSourceRange crange = Lexer::getAsCharRange(range, sm(), lo());
 
     llvm::StringRef text = Lexer::getSourceText(crange, sm(), lo());
+    if (!text.starts_with(q_property)) {
+        return; // The Q_PROPERTY is written by another macro, there's no source text to look at
+    }
 
     const auto openingLParen = std::find_if_not(text.begin() + q_property.size(), text.end(), [](char c) {
         return std::isspace(c);
     });
-    if (*openingLParen != '(') {
+    if (openingLParen == text.end() || *openingLParen != '(') {
         emitWarning(range.getBegin(), "Could not parse argument of the Q_PROPERTY macro");
         return;
     }
@@ -243,10 +246,14 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
         return str == "*"sv || str == "&"sv;
     };
 
-    for (; isModifier(split[splitIndex]) || p.type.empty(); ++splitIndex) {
+    for (; splitIndex < split.size() && (isModifier(split[splitIndex]) || p.type.empty()); ++splitIndex) {
         p.type += split[splitIndex];
     }
 
+    if (splitIndex == split.size()) {
+        return; // There's no name
+    }
+
     // Handle name
     p.name = split[splitIndex];
 
-- 
2.43.0


From 5cff260eba30ae33a4642bde01e6e1b522b19c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:14 +0000
Subject: [PATCH 16/56] fix: detaching-member crashed when iterators are plain
 pointers

---
 src/checks/manuallevel/detaching-member.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/checks/manuallevel/detaching-member.cpp b/src/checks/manuallevel/detaching-member.cpp
index ae7cdf2..4b0d94b 100644
--- a/src/checks/manuallevel/detaching-member.cpp
+++ b/src/checks/manuallevel/detaching-member.cpp
@@ -130,9 +130,14 @@ void DetachingMember::VisitStmt(clang::Stmt *stm)
                         ParmVarDecl *param = parentFunc->getParamDecl(i);
 
                         // Check that the record declarations have the same type
-                        if (param->getType().getTypePtr()->getAsRecordDecl()->getNameAsString()
-                            == memberCall->getType().getTypePtr()->getAsRecordDecl()->getNameAsString()) {
-                            return;
+                        const RecordDecl *paramRecord = param->getType()->getAsRecordDecl();
+                        const RecordDecl *iteratorRecord = memberCall->getType()->getAsRecordDecl();
+                        if (paramRecord && iteratorRecord) {
+                            if (paramRecord->getNameAsString() == iteratorRecord->getNameAsString()) {
+                                return;
+                            }
+                        } else if (m_context->astContext->hasSameUnqualifiedType(param->getType(), memberCall->getType())) {
+                            return; // The iterators are plain pointers
                         }
                         break;
                     }
-- 
2.43.0


From a5d443ba91c2b40ec7dffa5f85f049e022149fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:14 +0000
Subject: [PATCH 17/56] fix: unneeded-cast crashed on functions named
 qobject_cast that aren't Qt's, and on casts from unknown types

---
 src/checks/manuallevel/unneeded-cast.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/checks/manuallevel/unneeded-cast.cpp b/src/checks/manuallevel/unneeded-cast.cpp
index fe0bf35..2ffbc4e 100644
--- a/src/checks/manuallevel/unneeded-cast.cpp
+++ b/src/checks/manuallevel/unneeded-cast.cpp
@@ -32,7 +32,7 @@ inline bool is_qobject_cast(clang::Stmt *s, clang::CXXRecordDecl **castTo = null
 {
     if (auto *callExpr = llvm::dyn_cast<clang::CallExpr>(s)) {
         clang::FunctionDecl *func = callExpr->getDirectCallee();
-        if (!func || clazy::name(func) != "qobject_cast") {
+        if (!func || callExpr->getNumArgs() == 0 || clazy::name(func) != "qobject_cast") {
             return false;
         }
 
@@ -52,7 +52,7 @@ inline bool is_qobject_cast(clang::Stmt *s, clang::CXXRecordDecl **castTo = null
 
         if (castTo) {
             const auto *templateArgs = func->getTemplateSpecializationArgs();
-            if (templateArgs->size() == 1) {
+            if (templateArgs && templateArgs->size() == 1 && templateArgs->get(0).getKind() == clang::TemplateArgument::Type) {
                 const clang::TemplateArgument &arg = templateArgs->get(0);
                 clang::QualType qt = clazy::pointeeQualType(arg.getAsType());
                 if (!qt.isNull()) {
@@ -129,7 +129,7 @@ bool UnneededCast::handleQObjectCast(Stmt *stm)
     CXXRecordDecl *castTo = nullptr;
     CXXRecordDecl *castFrom = nullptr;
 
-    if (!is_qobject_cast(stm, &castTo, &castFrom)) {
+    if (!is_qobject_cast(stm, &castTo, &castFrom) || !castFrom || !castTo) {
         return false;
     }
 
-- 
2.43.0


From c5936805a029c0e4234319a9bfd6a7ba518ad1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:14 +0000
Subject: [PATCH 18/56] fix: modernize-list-initialization read past a
 declaration of several variables

---
 src/checks/manuallevel/modernize-list-initialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/modernize-list-initialization.cpp b/src/checks/manuallevel/modernize-list-initialization.cpp
index 0b3c8ea..234707e 100644
--- a/src/checks/manuallevel/modernize-list-initialization.cpp
+++ b/src/checks/manuallevel/modernize-list-initialization.cpp
@@ -16,7 +16,7 @@ using namespace clang;
 
 void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
 {
-    if (auto expr = dyn_cast<DeclStmt>(stmt)) {
+    if (auto expr = dyn_cast<DeclStmt>(stmt); expr && expr->isSingleDecl()) {
         if (auto varDecl = dyn_cast<VarDecl>(expr->getSingleDecl()); varDecl && varDecl->hasInit()) {
             if (auto *initExpr = dyn_cast<ExprWithCleanups>(varDecl->getInit())) {
                 const std::string name = initExpr->getType().getUnqualifiedType().getAsString();
-- 
2.43.0


From ddc784828b8a792b518724bf789aa97ff7eae6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:14 +0000
Subject: [PATCH 19/56] fix: modernize-overloaded-connects dereferenced the
 callee of indirect calls

---
 src/checks/level1/modernize-overloaded-connects.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level1/modernize-overloaded-connects.cpp b/src/checks/level1/modernize-overloaded-connects.cpp
index cc9ad10..fe87528 100644
--- a/src/checks/level1/modernize-overloaded-connects.cpp
+++ b/src/checks/level1/modernize-overloaded-connects.cpp
@@ -73,7 +73,7 @@ void ModernizeOverloadedConnects::checkConnectArg(CallExpr *call, int numArgToCh
         }
     }
     if (auto callExpr = dyn_cast<CallExpr>(argToCheck)) {
-        if (auto calleeDecl = dyn_cast<CXXMethodDecl>(callExpr->getDirectCallee())) {
+        if (auto calleeDecl = dyn_cast_or_null<CXXMethodDecl>(callExpr->getDirectCallee())) {
             if (calleeDecl->getNameAsString() == "of" && calleeDecl->getParent()->getNameAsString() == "QNonConstOverload") {
                 if (isMethodOverloaded) {
                     std::vector<FixItHint> fixits{
-- 
2.43.0


From 44b4ca6f7eb241d2a8947414d26609f5595d6f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 20/56] fix: nothing is reported in system headers, whatever
 finds it

---
 src/checkbase.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index c3f9954..a4ee26d 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -227,6 +227,11 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
     // Queued for this warning, so they are dropped with it when it's suppressed or filtered
     const auto queuedWarnings = std::exchange(m_queuedManualInterventionWarnings, {});
 
+    // Not everything that's checked is filtered by location before, for example AST matchers and preprocessor callbacks aren't
+    if (loc.isValid() && sm().isInSystemHeader(loc)) {
+        return;
+    }
+
     if (m_context->suppressionManager.isSuppressed(m_name, loc, sm(), lo())) {
         return;
     }
-- 
2.43.0


From a9a15bde9cebd8570925110f725983c1bf0e95e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:34 +0000
Subject: [PATCH 21/56] fix: a warning in a macro argument is suppressed,
 filtered and shown by the argument's own line, and each one is reported

---
 src/ClazyContext.cpp       | 2 +-
 src/SuppressionManager.cpp | 2 +-
 src/checkbase.cpp          | 6 ++++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index d0619bd..92fe354 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -193,7 +193,7 @@ bool ClazyContext::passesLineFilter(clang::SourceLocation loc) const
         return true;
     }
 
-    const PresumedLoc ploc = sm.getPresumedLoc(loc);
+    const PresumedLoc ploc = sm.getPresumedLoc(sm.getFileLoc(loc)); // What's written in a macro argument is shown there
     if (ploc.isInvalid()) {
         return true; // Don't drop diagnostics we can't attribute to a location
     }
diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 1360098..0342bf1 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -70,7 +70,7 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
                                       const clang::LangOptions &lo) const
 {
     if (loc.isMacroID()) {
-        loc = sm.getExpansionLoc(loc);
+        loc = sm.getFileLoc(loc); // What's written in a macro argument is shown there
     }
 
     FileID fileID = sm.getFileID(loc);
diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index a4ee26d..6d34164 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -245,10 +245,12 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
     }
 
     if (loc.isMacroID()) {
-        if (warningAlreadyEmitted(loc)) {
+        // The place that's shown: the argument if it's written in a macro argument, otherwise the use of the macro
+        const SourceLocation shownLoc = sm().getFileLoc(loc);
+        if (warningAlreadyEmitted(shownLoc)) {
             return; // For warnings in macro arguments we get a warning in each place the argument is used within the expanded macro, so filter all the dups
         }
-        m_emittedWarningsInMacro.push_back(loc.getRawEncoding());
+        m_emittedWarningsInMacro.push_back(shownLoc.getRawEncoding());
     }
 
     if (printWarningTag) {
-- 
2.43.0


From 3e87b4ff7f26b8ced6b0c27b8ee9b96630eaa02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:34 +0000
Subject: [PATCH 22/56] fix: a warning in a template is reported once, not once
 per instantiation

---
 src/checkbase.cpp | 2 ++
 src/checkbase.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index 6d34164..8227689 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -251,6 +251,8 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
             return; // For warnings in macro arguments we get a warning in each place the argument is used within the expanded macro, so filter all the dups
         }
         m_emittedWarningsInMacro.push_back(shownLoc.getRawEncoding());
+    } else if (printWarningTag && !m_emittedWarnings.emplace(loc.getRawEncoding(), error).second) {
+        return; // AST matchers also match in every instantiation of a template
     }
 
     if (printWarningTag) {
diff --git a/src/checkbase.h b/src/checkbase.h
index 832b3d6..9084e26 100644
--- a/src/checkbase.h
+++ b/src/checkbase.h
@@ -23,6 +23,7 @@
 #include <clang/Parse/Parser.h>
 #include <llvm/Config/llvm-config.h>
 
+#include <set>
 #include <string>
 #include <utility>
 #include <vector>
@@ -217,6 +218,7 @@ private:
     friend class ClazyAstMatcherCallback;
     ClazyPreprocessorCallbacks *const m_preprocessorCallbacks;
     std::vector<unsigned int> m_emittedWarningsInMacro;
+    std::set<std::pair<unsigned int, std::string>> m_emittedWarnings;
     std::vector<unsigned int> m_emittedManualFixItsWarningsInMacro;
     std::vector<std::pair<clang::SourceLocation, std::string>> m_queuedManualInterventionWarnings;
     const Options m_options;
-- 
2.43.0


From 32f1fea33c6a6af6ce13c0ed5806f7875f9d5767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 23/56] fix: ignore-included-files silences the checks that
 support it however they find their warnings

compare-member-check, qproperty-without-notify and unused-result-check don't go
through the visitors that looked at the option.
---
 src/checkbase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index 8227689..cf238e9 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -232,6 +232,10 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
         return;
     }
 
+    if (loc.isValid() && m_context->ignoresIncludedFiles() && canIgnoreIncludes() && !Utils::isMainFile(sm(), loc)) {
+        return;
+    }
+
     if (m_context->suppressionManager.isSuppressed(m_name, loc, sm(), lo())) {
         return;
     }
-- 
2.43.0


From c16f1d8f59cdc30597e0745d21a85f96b91493cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 24/56] fix: exported fixes don't change macro definitions

The compiler never shows fix-its inside macros, but the exporter wrote them, for
macros defined in system headers too. Many of them didn't even compile, since
there's no source text for the range.
---
 src/FixItExporter.cpp | 25 ++++++++++++++++++++++++-
 src/FixItExporter.h   |  1 +
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 28ccb89..2252541 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -7,6 +7,7 @@
 #include "FixItExporter.h"
 
 #include <clang/Basic/SourceManager.h>
+#include <clang/Edit/Commit.h>
 #include <clang/Frontend/FrontendDiagnostic.h>
 #include <clang/Rewrite/Frontend/FixItRewriter.h>
 #include <clang/Tooling/DiagnosticsYaml.h>
@@ -127,6 +128,26 @@ tooling::Replacement FixItExporter::ConvertFixIt(const FixItHint &Hint)
     return {SourceMgr, Hint.RemoveRange, Hint.CodeToInsert};
 }
 
+bool FixItExporter::CanApplyFixIts(const Diagnostic &Info) const
+{
+    edit::Commit commit(SourceMgr, LangOpts);
+    for (const FixItHint &Hint : Info.getFixItHints()) {
+        if (!Hint.CodeToInsert.empty()) {
+            const bool isInsertion = Hint.RemoveRange.isCharRange() && Hint.RemoveRange.getBegin() == Hint.RemoveRange.getEnd();
+            if (isInsertion) {
+                commit.insert(Hint.RemoveRange.getBegin(), Hint.CodeToInsert, /*afterToken=*/false, Hint.BeforePreviousInsertions);
+            } else {
+                commit.replace(Hint.RemoveRange, Hint.CodeToInsert);
+            }
+        } else if (Hint.InsertFromRange.isValid()) {
+            commit.insertFromRange(Hint.RemoveRange.getBegin(), Hint.InsertFromRange);
+        } else {
+            commit.remove(Hint.RemoveRange);
+        }
+    }
+    return commit.isCommitable();
+}
+
 // This function should export diagnostics, even if they are not fixits! Needed for Qtcreator integration
 void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const Diagnostic &Info)
 {
@@ -141,7 +162,9 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
     // Convert and record warning diagnostics and their notes
     if (DiagLevel == DiagnosticsEngine::Warning) {
         auto ToolingDiag = ConvertDiagnostic(Info);
-        for (unsigned Idx = 0, Last = Info.getNumFixItHints(); Idx < Last; ++Idx) {
+        // Like in the compiler's own output, no fixes that would change a macro's definition, and with that its other uses
+        const unsigned NumFixIts = CanApplyFixIts(Info) ? Info.getNumFixItHints() : 0;
+        for (unsigned Idx = 0; Idx < NumFixIts; ++Idx) {
             const FixItHint &Hint = Info.getFixItHint(Idx);
             const auto replacement = ConvertFixIt(Hint);
 #ifdef DEBUG_FIX_IT_EXPORTER
diff --git a/src/FixItExporter.h b/src/FixItExporter.h
index 821f7ac..4666e62 100644
--- a/src/FixItExporter.h
+++ b/src/FixItExporter.h
@@ -50,6 +50,7 @@ private:
     std::unique_ptr<DiagnosticConsumer> Owner;
     bool m_recordNotes = false;
     clang::tooling::Diagnostic ConvertDiagnostic(const clang::Diagnostic &Info);
+    bool CanApplyFixIts(const clang::Diagnostic &Info) const;
     clang::tooling::Replacement ConvertFixIt(const clang::FixItHint &Hint);
 };
 
-- 
2.43.0


From b3b11a0b21a86e8411234946edf82d3f04a578d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 25/56] fix: unused-non-trivial-variable reports a variable in
 a macro argument where it's written

It was reported at the macro, where neither a suppression comment on its line nor the line filter applied.
---
 src/checks/level0/unused-non-trivial-variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level0/unused-non-trivial-variable.cpp b/src/checks/level0/unused-non-trivial-variable.cpp
index e405e7a..b1a76a2 100644
--- a/src/checks/level0/unused-non-trivial-variable.cpp
+++ b/src/checks/level0/unused-non-trivial-variable.cpp
@@ -221,7 +221,7 @@ void UnusedNonTrivialVariable::handleVarDecl(VarDecl *varDecl)
         // Check for [[maybe_unused]] attribute
         if (!varDecl->hasAttr<clang::UnusedAttr>()) {
             const std::string varName = varDecl->getQualifiedNameAsString();
-            emitWarning(locStart, "unused " + clazy::simpleTypeName(varDecl->getType(), lo()) + " " + varName);
+            emitWarning(varDecl->getBeginLoc(), "unused " + clazy::simpleTypeName(varDecl->getType(), lo()) + " " + varName);
         }
     }
 }
-- 
2.43.0


From db179f353d3cf8308951302e73385c270fe724fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 26/56] fix: qbytearray-conversion-to-c-style warns where a
 macro is used, not in its definition

---
 src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
index fb62d1c..eea17d2 100644
--- a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
+++ b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
@@ -104,11 +104,11 @@ void QBytearrayConversionToCStyle::VisitStmt(clang::Stmt *stmt)
     if (auto *opCallExpr = clazy::getFirstChildOfType<CXXOperatorCallExpr>(stmt)) {
         if (opCallExpr->getOperator() == clang::OO_Plus) {
             std::string fixed = "QByteArray{" + std::string{text} + "}.constData()";
-            emitWarning(begin, msg, {clazy::createReplacement(sr, fixed)});
+            emitWarning(sr.getBegin(), msg, {clazy::createReplacement(sr, fixed)});
             return;
         }
     }
 
     std::vector<FixItHint> fixits = {clazy::createReplacement(sr, std::string{text} + ".constData()")};
-    emitWarning(begin, msg, fixits);
+    emitWarning(sr.getBegin(), msg, fixits);
 }
-- 
2.43.0


From f101facee95e3abf2660ac39aa1a2b2d6476e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 27/56] fix: missing-qobject-macro finds the Q_OBJECT of a
 class written in a macro argument

---
 src/checks/level2/missing-qobject-macro.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/checks/level2/missing-qobject-macro.cpp b/src/checks/level2/missing-qobject-macro.cpp
index a311310..0c67f7c 100644
--- a/src/checks/level2/missing-qobject-macro.cpp
+++ b/src/checks/level2/missing-qobject-macro.cpp
@@ -51,13 +51,19 @@ void MissingQObjectMacro::VisitDecl(clang::Decl *decl)
 
     const SourceLocation startLoc = decl->getBeginLoc();
 
+    const auto isInside = [this](SourceLocation loc, SourceLocation begin, SourceLocation end) {
+        return sm().getFileID(loc) == sm().getFileID(begin) // Otherwise it's a different file
+            && sm().isBeforeInSLocAddrSpace(begin, loc) && sm().isBeforeInSLocAddrSpace(loc, end);
+    };
+
     for (const SourceLocation &loc : m_qobjectMacroLocations) {
-        if (sm().getFileID(loc) != sm().getFileID(startLoc)) {
-            continue; // Different file
+        if (isInside(loc, startLoc, decl->getEndLoc())) {
+            return; // We found a Q_OBJECT after start and before end, it's ours.
         }
 
-        if (sm().isBeforeInSLocAddrSpace(startLoc, loc) && sm().isBeforeInSLocAddrSpace(loc, decl->getEndLoc())) {
-            return; // We found a Q_OBJECT after start and before end, it's ours.
+        // The class and the macro are expanded separately if they're written in a macro argument
+        if (startLoc.isMacroID() && isInside(sm().getFileLoc(loc), sm().getFileLoc(startLoc), sm().getFileLoc(decl->getEndLoc()))) {
+            return;
         }
     }
 
-- 
2.43.0


From 5ac0c6d41a268675e5b75637bad453ccb807a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 28/56] fix: missing-typeinfo doesn't say where the type is
 declared when its warning is suppressed

---
 src/checkbase.cpp                      | 30 ++++++++++++++------------
 src/checkbase.h                        |  8 +++----
 src/checks/level2/missing-typeinfo.cpp |  4 ++--
 3 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index cf238e9..58ceef7 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -202,19 +202,19 @@ bool CheckBase::shouldIgnoreFile(SourceLocation loc) const
     });
 }
 
-void CheckBase::emitWarning(const clang::Decl *d, const std::string &error, bool printWarningTag)
+bool CheckBase::emitWarning(const clang::Decl *d, const std::string &error, bool printWarningTag)
 {
-    emitWarning(d->getBeginLoc(), error, printWarningTag);
+    return emitWarning(d->getBeginLoc(), error, printWarningTag);
 }
 
-void CheckBase::emitWarning(const clang::Stmt *s, const std::string &error, bool printWarningTag)
+bool CheckBase::emitWarning(const clang::Stmt *s, const std::string &error, bool printWarningTag)
 {
-    emitWarning(s->getBeginLoc(), error, printWarningTag);
+    return emitWarning(s->getBeginLoc(), error, printWarningTag);
 }
 
-void CheckBase::emitWarning(clang::SourceLocation loc, const std::string &error, bool printWarningTag)
+bool CheckBase::emitWarning(clang::SourceLocation loc, const std::string &error, bool printWarningTag)
 {
-    emitWarning(loc, error, {}, printWarningTag);
+    return emitWarning(loc, error, {}, printWarningTag);
 }
 
 std::string CheckBase::tag() const
@@ -222,41 +222,41 @@ std::string CheckBase::tag() const
     return !m_context || m_context->m_isClangTidy ? "" : " [-Wclazy-" + m_name + ']';
 }
 
-void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const std::vector<FixItHint> &fixits, bool printWarningTag)
+bool CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const std::vector<FixItHint> &fixits, bool printWarningTag)
 {
     // Queued for this warning, so they are dropped with it when it's suppressed or filtered
     const auto queuedWarnings = std::exchange(m_queuedManualInterventionWarnings, {});
 
     // Not everything that's checked is filtered by location before, for example AST matchers and preprocessor callbacks aren't
     if (loc.isValid() && sm().isInSystemHeader(loc)) {
-        return;
+        return false;
     }
 
     if (loc.isValid() && m_context->ignoresIncludedFiles() && canIgnoreIncludes() && !Utils::isMainFile(sm(), loc)) {
-        return;
+        return false;
     }
 
     if (m_context->suppressionManager.isSuppressed(m_name, loc, sm(), lo())) {
-        return;
+        return false;
     }
 
     if (m_context->shouldIgnoreFile(loc)) {
-        return;
+        return false;
     }
 
     if (!m_context->passesLineFilter(loc)) {
-        return;
+        return false;
     }
 
     if (loc.isMacroID()) {
         // The place that's shown: the argument if it's written in a macro argument, otherwise the use of the macro
         const SourceLocation shownLoc = sm().getFileLoc(loc);
         if (warningAlreadyEmitted(shownLoc)) {
-            return; // For warnings in macro arguments we get a warning in each place the argument is used within the expanded macro, so filter all the dups
+            return false; // For warnings in macro arguments we get a warning in each place the argument is used within the expanded macro, so filter all the dups
         }
         m_emittedWarningsInMacro.push_back(shownLoc.getRawEncoding());
     } else if (printWarningTag && !m_emittedWarnings.emplace(loc.getRawEncoding(), error).second) {
-        return; // AST matchers also match in every instantiation of a template
+        return false; // AST matchers also match in every instantiation of a template
     }
 
     if (printWarningTag) {
@@ -273,6 +273,8 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
 
         reallyEmitWarning(l.first, msg + tag(), {});
     }
+
+    return true;
 }
 
 void CheckBase::emitInternalError(SourceLocation loc, std::string error)
diff --git a/src/checkbase.h b/src/checkbase.h
index 9084e26..f21f063 100644
--- a/src/checkbase.h
+++ b/src/checkbase.h
@@ -124,10 +124,10 @@ public:
         return m_name;
     }
 
-    void emitWarning(const clang::Decl *, const std::string &error, bool printWarningTag = true);
-    void emitWarning(const clang::Stmt *, const std::string &error, bool printWarningTag = true);
-    void emitWarning(clang::SourceLocation loc, const std::string &error, bool printWarningTag = true);
-    void emitWarning(clang::SourceLocation loc, std::string error, const std::vector<clang::FixItHint> &fixits, bool printWarningTag = true);
+    bool emitWarning(const clang::Decl *, const std::string &error, bool printWarningTag = true);
+    bool emitWarning(const clang::Stmt *, const std::string &error, bool printWarningTag = true);
+    bool emitWarning(clang::SourceLocation loc, const std::string &error, bool printWarningTag = true);
+    bool emitWarning(clang::SourceLocation loc, std::string error, const std::vector<clang::FixItHint> &fixits, bool printWarningTag = true);
     void emitInternalError(clang::SourceLocation loc, std::string error);
 
     virtual void registerASTMatchers(clang::ast_matchers::MatchFinder &)
diff --git a/src/checks/level2/missing-typeinfo.cpp b/src/checks/level2/missing-typeinfo.cpp
index ed8f3e3..b9ac5aa 100644
--- a/src/checks/level2/missing-typeinfo.cpp
+++ b/src/checks/level2/missing-typeinfo.cpp
@@ -65,8 +65,8 @@ void MissingTypeInfo::VisitDecl(clang::Decl *decl)
             return;
         }
 
-        emitWarning(decl, "Missing Q_DECLARE_TYPEINFO: " + typeName);
-        if (!m_context->m_isClangTidy) { // Diagnostics are sorted and emitted in order based on location/message. Not helpful in this case
+        const bool emitted = emitWarning(decl, "Missing Q_DECLARE_TYPEINFO: " + typeName);
+        if (emitted && !m_context->m_isClangTidy) { // Diagnostics are sorted and emitted in order based on location/message. Not helpful in this case
             emitWarning(record, "Type declared here:", false);
         }
     }
-- 
2.43.0


From 77f6ff8500e34e5a2a2fa1ce3b7a4c549d54d2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 29/56] fix: exported fix files name the check of a warning
 whose message has no tag

---
 src/FixItExporter.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 2252541..e6269e4 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -84,9 +84,17 @@ tooling::Diagnostic FixItExporter::ConvertDiagnostic(const Diagnostic &Info)
 
     if (checkName.empty()) {
         // Non-built-in clang warnings have the [checkName] in the message
-        messageText = TmpMessageText.slice(0, TmpMessageText.find_last_of('[') - 1).str();
-
-        checkName = TmpMessageText.slice(TmpMessageText.find_last_of('[') + 3, TmpMessageText.find_last_of(']')).str();
+        const StringRef Text = TmpMessageText.str();
+        if (const size_t Tag = Text.rfind(" [-W"); Tag != StringRef::npos && Text.ends_with("]")) {
+            messageText = Text.substr(0, Tag).str();
+            checkName = Text.slice(Tag + 4, Text.size() - 1).str();
+        } else {
+            // Without a tag it's the continuation of the check's previous warning
+            messageText = Text.str();
+            if (const auto &Diagnostics = getTuDiag().Diagnostics; !Diagnostics.empty()) {
+                checkName = Diagnostics.back().DiagnosticName;
+            }
+        }
     } else {
         messageText = TmpMessageText.c_str();
     }
-- 
2.43.0


From bc2016007e9cac3d2e4e4e742e12eebd356e735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 30/56] fix: reserve-candidates forgets the loops of one
 translation unit before the next

---
 src/checks/manuallevel/reserve-candidates.cpp | 16 +++++++---------
 src/checks/manuallevel/reserve-candidates.h   |  6 ++++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/checks/manuallevel/reserve-candidates.cpp b/src/checks/manuallevel/reserve-candidates.cpp
index 7950c4e..636ea9c 100644
--- a/src/checks/manuallevel/reserve-candidates.cpp
+++ b/src/checks/manuallevel/reserve-candidates.cpp
@@ -117,7 +117,7 @@ bool ReserveCandidates::acceptsValueDecl(ValueDecl *valueDecl) const
     return record && m_context->lastMethodDecl->getParent() == record;
 }
 
-bool ReserveCandidates::isReserveCandidate(ValueDecl *valueDecl, Stmt *loopBody, CallExpr *callExpr) const
+bool ReserveCandidates::isReserveCandidate(ValueDecl *valueDecl, Stmt *loopBody, CallExpr *callExpr)
 {
     if (!acceptsValueDecl(valueDecl)) {
         return false;
@@ -289,7 +289,7 @@ bool ReserveCandidates::loopIsComplex(clang::Stmt *stm, bool &isLoop) const
     return false;
 }
 
-bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocation, bool isMemberVariable) const
+bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocation, bool isMemberVariable)
 {
     if (!s || declLocation.isInvalid()) {
         return false;
@@ -298,13 +298,11 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
     int forCount = 0;
     int foreachCount = 0;
 
-    static std::vector<unsigned int> nonComplexOnesCache;
-    static std::vector<unsigned int> complexOnesCache;
     auto rawLoc = s->getBeginLoc().getRawEncoding();
 
     // For some reason we generate two warnings on some foreaches, so cache the ones we processed
     // and return true so we don't trigger a warning
-    if (clazy::contains(nonComplexOnesCache, rawLoc) || clazy::contains(complexOnesCache, rawLoc)) {
+    if (clazy::contains(m_nonComplexOnesCache, rawLoc) || clazy::contains(m_complexOnesCache, rawLoc)) {
         return true;
     }
 
@@ -313,13 +311,13 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
     while ((parent = clazy::parent(m_context->parentMap, parent))) {
         const SourceLocation parentStart = parent->getBeginLoc();
         if (!isMemberVariable && sm().isBeforeInSLocAddrSpace(parentStart, declLocation)) {
-            nonComplexOnesCache.push_back(rawLoc);
+            m_nonComplexOnesCache.push_back(rawLoc);
             return false;
         }
 
         bool isLoop = false;
         if (loopIsComplex(parent, isLoop)) {
-            complexOnesCache.push_back(rawLoc);
+            m_complexOnesCache.push_back(rawLoc);
             return true;
         }
 
@@ -338,11 +336,11 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
         }
 
         if (foreachCount > 1 || forCount > 1) { // two foreaches are almost always a false-positve
-            complexOnesCache.push_back(rawLoc);
+            m_complexOnesCache.push_back(rawLoc);
             return true;
         }
     }
 
-    nonComplexOnesCache.push_back(rawLoc);
+    m_nonComplexOnesCache.push_back(rawLoc);
     return false;
 }
diff --git a/src/checks/manuallevel/reserve-candidates.h b/src/checks/manuallevel/reserve-candidates.h
index d693c7b..7f7775f 100644
--- a/src/checks/manuallevel/reserve-candidates.h
+++ b/src/checks/manuallevel/reserve-candidates.h
@@ -42,12 +42,14 @@ private:
     bool acceptsValueDecl(clang::ValueDecl *valueDecl) const;
     bool expressionIsComplex(clang::Expr *) const;
     bool loopIsComplex(clang::Stmt *, bool &isLoop) const;
-    bool isInComplexLoop(clang::Stmt *, clang::SourceLocation declLocation, bool isMemberVariable) const;
-    bool isReserveCandidate(clang::ValueDecl *valueDecl, clang::Stmt *loopBody, clang::CallExpr *callExpr) const;
+    bool isInComplexLoop(clang::Stmt *, clang::SourceLocation declLocation, bool isMemberVariable);
+    bool isReserveCandidate(clang::ValueDecl *valueDecl, clang::Stmt *loopBody, clang::CallExpr *callExpr);
     bool isCandidateMethod(clang::CXXMethodDecl *methodDecl);
     bool isCandidate(clang::CallExpr *oper);
 
     std::vector<clang::ValueDecl *> m_foundReserves;
+    std::vector<unsigned int> m_nonComplexOnesCache;
+    std::vector<unsigned int> m_complexOnesCache;
 };
 
 #endif
-- 
2.43.0


From 396ec27ba8f91be30f2743b74c0a346b479ed706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 31/56] fix: old-style-connect doesn't carry the class of an
 unfixable connect into the next one

---
 src/checks/level2/old-style-connect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level2/old-style-connect.cpp b/src/checks/level2/old-style-connect.cpp
index 7461a27..9210047 100644
--- a/src/checks/level2/old-style-connect.cpp
+++ b/src/checks/level2/old-style-connect.cpp
@@ -331,9 +331,9 @@ std::vector<FixItHint> OldStyleConnect::fixits(int classification, T *callOrCtor
     std::string implicitCallee;
     std::string macroName;
     CXXMethodDecl *senderMethod = nullptr;
+    const CXXRecordDecl *lastRecordDecl = nullptr;
     for (auto arg : callOrCtor->arguments()) {
         SourceLocation s = arg->getBeginLoc();
-        static const CXXRecordDecl *lastRecordDecl = nullptr;
         if (isSignalOrSlot(s, macroName)) {
             macroNum++;
             if (!lastRecordDecl && (classification & ConnectFlag_4ArgsConnect)) {
-- 
2.43.0


From 506da633db39e63b39bb9a6ff5644e9de38a6552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 32/56] fix: Q_INVOKABLE, Q_SLOT, Q_SIGNAL and Q_SCRIPTABLE
 count wherever they stand before a method's name

A mark was only seen when its next token was the first one of the declaration, so 'virtual Q_INVOKABLE void f()',
'Q_INVOKABLE Q_SCRIPTABLE void f()' or 'Q_INVOKABLE [[nodiscard]] int f()' weren't invokable. Also, Q_SCRIPTABLE makes a
method invokable, what is in a signals section isn't a slot, and the sections of a class that's local to an inline
method, or nested, aren't sections of the outer class.
---
 src/AccessSpecifierManager.cpp | 133 +++++++++++++++++++--------------
 src/AccessSpecifierManager.h   |   5 +-
 2 files changed, 82 insertions(+), 56 deletions(-)

diff --git a/src/AccessSpecifierManager.cpp b/src/AccessSpecifierManager.cpp
index 7fabf20..d476ab4 100644
--- a/src/AccessSpecifierManager.cpp
+++ b/src/AccessSpecifierManager.cpp
@@ -8,7 +8,6 @@
 
 #include "AccessSpecifierManager.h"
 #include "QtUtils.h"
-#include "Utils.h"
 
 #include <clang/AST/DeclBase.h>
 #include <clang/AST/DeclCXX.h>
@@ -24,6 +23,7 @@
 #include <llvm/Support/Casting.h>
 
 #include <algorithm>
+#include <iterator>
 #include <utility>
 
 namespace clang
@@ -63,10 +63,9 @@ static void sorted_insert(ClazySpecifierList &v, const ClazyAccessSpecifier &ite
 class AccessSpecifierPreprocessorCallbacks : public clang::PPCallbacks
 {
 public:
-    AccessSpecifierPreprocessorCallbacks(const clang::SourceManager &sm, const clang::LangOptions &opts)
+    AccessSpecifierPreprocessorCallbacks(const clang::SourceManager &sm)
         : clang::PPCallbacks()
         , m_sm(sm)
-        , m_lo(opts)
     {
         m_qtAccessSpecifiers.reserve(30); // bootstrap it
     }
@@ -111,37 +110,29 @@ public:
         if (isSignals || isSlots) {
             QtAccessSpecifierType qtAccessSpecifier = isSlots ? QtAccessSpecifier_Slot : QtAccessSpecifier_Signal;
             m_qtAccessSpecifiers.push_back({loc, clang::AS_none, qtAccessSpecifier});
-        } else {
-            // Get the location of the method declaration, so we can compare directly when we visit methods
-            loc = Utils::locForNextToken(loc, m_sm, m_lo);
-            if (loc.isInvalid()) {
-                return;
-            }
-            if (isSignal) {
-                m_individualSignals.push_back(loc.getRawEncoding());
-            } else if (isSlot) {
-                m_individualSlots.push_back(loc.getRawEncoding());
-            } else if (isInvokable) {
-                m_invokables.push_back(loc.getRawEncoding());
-            } else if (isScriptable) {
-                m_scriptables.push_back(loc.getRawEncoding());
-            }
+        } else if (isSignal) {
+            m_individualSignals.insert(loc.getRawEncoding());
+        } else if (isSlot) {
+            m_individualSlots.insert(loc.getRawEncoding());
+        } else if (isInvokable) {
+            m_invokables.insert(loc.getRawEncoding());
+        } else if (isScriptable) {
+            m_scriptables.insert(loc.getRawEncoding());
         }
     }
 
-    std::vector<unsigned> m_individualSignals; // Q_SIGNAL
-    std::vector<unsigned> m_individualSlots; // Q_SLOT
-    std::vector<unsigned> m_invokables; // Q_INVOKABLE
-    std::vector<unsigned> m_scriptables; // Q_SCRIPTABLE
+    std::set<unsigned> m_individualSignals; // Q_SIGNAL
+    std::set<unsigned> m_individualSlots; // Q_SLOT
+    std::set<unsigned> m_invokables; // Q_INVOKABLE
+    std::set<unsigned> m_scriptables; // Q_SCRIPTABLE
     std::string m_qtNamespace;
     ClazySpecifierList m_qtAccessSpecifiers;
     const SourceManager &m_sm;
-    const LangOptions &m_lo;
 };
 
 AccessSpecifierManager::AccessSpecifierManager(Preprocessor &pi, bool exportFixesEnabled)
     : m_sm(pi.getSourceManager())
-    , m_preprocessorCallbacks(new AccessSpecifierPreprocessorCallbacks(m_sm, pi.getLangOpts()))
+    , m_preprocessorCallbacks(new AccessSpecifierPreprocessorCallbacks(m_sm))
     , m_fixitsEnabled(exportFixesEnabled)
 {
     pi.addPPCallbacks(std::unique_ptr<PPCallbacks>(m_preprocessorCallbacks));
@@ -154,15 +145,19 @@ ClazySpecifierList &AccessSpecifierManager::entryForClassDefinition(CXXRecordDec
     return specifiers;
 }
 
-const CXXRecordDecl *AccessSpecifierManager::classDefinitionForLoc(SourceLocation loc) const
+bool AccessSpecifierManager::isSectionOf(const CXXRecordDecl *record, SourceLocation loc) const
 {
-    for (const auto &it : m_specifiersMap) {
-        const CXXRecordDecl *record = it.first;
-        if (record->getBeginLoc() < loc && loc < record->getEndLoc()) {
-            return record;
+    if (!(record->getBeginLoc() < loc && loc < record->getEndLoc())) {
+        return false;
+    }
+
+    // Sections of nested classes, and of classes local to inline methods, aren't ours
+    for (const Decl *d : record->decls()) {
+        if (!d->isImplicit() && !isa<AccessSpecDecl>(d) && m_sm.getExpansionLoc(d->getBeginLoc()) < loc && loc < m_sm.getExpansionLoc(d->getEndLoc())) {
+            return false;
         }
     }
-    return nullptr;
+    return true;
 }
 
 void AccessSpecifierManager::VisitDeclaration(Decl *decl)
@@ -190,7 +185,7 @@ void AccessSpecifierManager::VisitDeclaration(Decl *decl)
 
     auto it = m_preprocessorCallbacks->m_qtAccessSpecifiers.begin();
     while (it != m_preprocessorCallbacks->m_qtAccessSpecifiers.end()) {
-        if (classDefinitionForLoc((*it).loc) == record) {
+        if (isSectionOf(record, (*it).loc)) {
             sorted_insert(specifiers, *it, m_sm);
             it = m_preprocessorCallbacks->m_qtAccessSpecifiers.erase(it);
         } else {
@@ -225,32 +220,39 @@ QtAccessSpecifierType AccessSpecifierManager::qtAccessSpecifierType(const CXXMet
         return QtAccessSpecifier_None;
     }
 
-    const SourceLocation methodLoc = method->getBeginLoc();
-
     // Process Q_SIGNAL:
-    for (auto signalLoc : m_preprocessorCallbacks->m_individualSignals) {
-        if (signalLoc == methodLoc.getRawEncoding()) {
-            return QtAccessSpecifier_Signal;
-        }
+    if (isMarked(method, m_preprocessorCallbacks->m_individualSignals)) {
+        return QtAccessSpecifier_Signal;
     }
 
-    // Process Q_SLOT:
-    for (auto slotLoc : m_preprocessorCallbacks->m_individualSlots) {
-        if (slotLoc == methodLoc.getRawEncoding()) {
-            return QtAccessSpecifier_Slot;
-        }
+    const QtAccessSpecifierType section = sectionType(method);
+
+    // Process Q_SLOT: (what's in a signals section is a signal to moc)
+    if (section != QtAccessSpecifier_Signal && isMarked(method, m_preprocessorCallbacks->m_individualSlots)) {
+        return QtAccessSpecifier_Slot;
     }
 
     // Process Q_INVOKABLE:
-    for (auto loc : m_preprocessorCallbacks->m_invokables) {
-        if (loc == methodLoc.getRawEncoding()) {
-            return QtAccessSpecifier_Invokable;
-        }
+    if (isMarked(method, m_preprocessorCallbacks->m_invokables)) {
+        return QtAccessSpecifier_Invokable;
     }
 
     // Process Q_SLOTS and Q_SIGNALS:
+    if (section == QtAccessSpecifier_Signal || section == QtAccessSpecifier_Slot) {
+        return section;
+    }
+
+    // Process Q_SCRIPTABLE: (it makes a method invokable, but a slot stays a slot)
+    if (isMarked(method, m_preprocessorCallbacks->m_scriptables)) {
+        return QtAccessSpecifier_Invokable;
+    }
+
+    return section;
+}
 
-    auto it = m_specifiersMap.find(record);
+QtAccessSpecifierType AccessSpecifierManager::sectionType(const CXXMethodDecl *method) const
+{
+    auto it = m_specifiersMap.find(method->getParent());
     if (it == m_specifiersMap.cend()) {
         return QtAccessSpecifier_None;
     }
@@ -262,7 +264,7 @@ QtAccessSpecifierType AccessSpecifierManager::qtAccessSpecifierType(const CXXMet
     };
 
     const ClazyAccessSpecifier dummy = {
-        methodLoc, // we're only interested in the location
+        method->getBeginLoc(), // we're only interested in the location
         /*dummy*/ clang::AS_none,
         /*dummy*/ QtAccessSpecifier_None,
     };
@@ -281,18 +283,39 @@ bool AccessSpecifierManager::isScriptable(const CXXMethodDecl *method) const
         return false;
     }
 
-    const SourceLocation methodLoc = method->getBeginLoc();
-    if (methodLoc.isMacroID()) {
+    if (method->getBeginLoc().isMacroID()) {
         return false;
     }
 
-    for (auto loc : m_preprocessorCallbacks->m_scriptables) {
-        if (loc == methodLoc.getRawEncoding()) {
-            return true;
-        }
+    return isMarked(method, m_preprocessorCallbacks->m_scriptables);
+}
+
+bool AccessSpecifierManager::isMarked(const CXXMethodDecl *method, const std::set<unsigned> &marks) const
+{
+    // The mark can be anywhere before the name: "Q_INVOKABLE void f()", "virtual Q_INVOKABLE void f()", "Q_INVOKABLE Q_SCRIPTABLE void f()"
+    const SourceLocation nameLoc = m_sm.getExpansionLoc(method->getLocation());
+    auto it = marks.lower_bound(nameLoc.getRawEncoding());
+    if (it == marks.begin()) {
+        return false;
     }
+    const SourceLocation mark = SourceLocation::getFromRawEncoding(*std::prev(it));
 
-    return false;
+    const CXXRecordDecl *record = method->getParent();
+    if (mark < m_sm.getExpansionLoc(record->getBraceRange().getBegin()) || m_sm.getFileID(mark) != m_sm.getFileID(nameLoc)) {
+        return false;
+    }
+
+    // It's of another method if some declaration ends between it and our name
+    for (const Decl *d : record->decls()) {
+        if (d->isImplicit()) {
+            continue;
+        }
+        const SourceLocation end = m_sm.getExpansionLoc(d->getEndLoc());
+        if (mark < end && end < nameLoc) {
+            return false;
+        }
+    }
+    return true;
 }
 
 llvm::StringRef AccessSpecifierManager::qtAccessSpecifierTypeStr(QtAccessSpecifierType t) const
diff --git a/src/AccessSpecifierManager.h b/src/AccessSpecifierManager.h
index b61f6c6..ba0473e 100644
--- a/src/AccessSpecifierManager.h
+++ b/src/AccessSpecifierManager.h
@@ -15,6 +15,7 @@
 #include <clang/Frontend/CompilerInstance.h>
 #include <llvm/ADT/StringRef.h>
 
+#include <set>
 #include <unordered_map>
 #include <vector>
 
@@ -79,7 +80,9 @@ public:
 
 private:
     ClazySpecifierList &entryForClassDefinition(clang::CXXRecordDecl *);
-    const clang::CXXRecordDecl *classDefinitionForLoc(clang::SourceLocation loc) const;
+    QtAccessSpecifierType sectionType(const clang::CXXMethodDecl *method) const;
+    bool isMarked(const clang::CXXMethodDecl *method, const std::set<unsigned> &marks) const;
+    bool isSectionOf(const clang::CXXRecordDecl *record, clang::SourceLocation loc) const;
     const clang::SourceManager &m_sm;
     const clang::LangOptions m_lo;
     std::unordered_map<const clang::CXXRecordDecl *, ClazySpecifierList> m_specifiersMap;
-- 
2.43.0


From 82096b9bd117622e0a78b931ad07c52ac960611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 33/56] fix: clazy --qtdeveloper and --visit-implicit-code can
 be given together

---
 clazy.cmake | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/clazy.cmake b/clazy.cmake
index d72e918..4e6d597 100644
--- a/clazy.cmake
+++ b/clazy.cmake
@@ -98,16 +98,15 @@ then
 fi
 
 ExtraClangOptions=""
-if ( test $# -gt 0 -a "$1" = "--qtdeveloper" )
-then
+while ( test $# -gt 0 )
+do
+  case "$1" in
+    --qtdeveloper) ExtraClangOptions="$ExtraClangOptions -Xclang -plugin-arg-clazy -Xclang qt-developer" ;;
+    --visit-implicit-code) ExtraClangOptions="$ExtraClangOptions -Xclang -plugin-arg-clazy -Xclang visit-implicit-code" ;;
+    *) break ;;
+  esac
   shift
-  ExtraClangOptions="-Xclang -plugin-arg-clazy -Xclang qt-developer"
-fi
-if ( test $# -gt 0 -a "$1" = "--visit-implicit-code" )
-then
-  shift
-  ExtraClangOptions="-Xclang -plugin-arg-clazy -Xclang visit-implicit-code"
-fi
+done
 
 case "$CLAZY_CHECKS" in
   *jni-signatures*)
-- 
2.43.0


From 953c49bb6e293c42f0b8b1e0b93535e447076775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 34/56] fix: clazy does not claim success when it did not run
 the compiler, and runs it when jni-signatures is disabled

---
 clazy.cmake | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clazy.cmake b/clazy.cmake
index 4e6d597..a6bf4dd 100644
--- a/clazy.cmake
+++ b/clazy.cmake
@@ -109,11 +109,13 @@ do
 done
 
 case "$CLAZY_CHECKS" in
+  *no-jni-signatures*)
+  ;;
   *jni-signatures*)
     if [ -z "$ANDROID_NDK" ]
     then
-        echo "To test JNI signatures you need to set ANDROID_NDK to your Android NDK installation."
-        exit
+        echo "To test JNI signatures you need to set ANDROID_NDK to your Android NDK installation." >&2
+        exit 1
     fi
 
     ExtraClangOptions=$ExtraClangOptions" -idirafter"$ANDROID_NDK"/sysroot/usr/include"
-- 
2.43.0


From a101f6f7f88664f2a38858b73d60758d5a0fae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 35/56] fix: the clazy script works from a directory with
 spaces, and does not add the current directory to the library path

---
 clazy.cmake | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/clazy.cmake b/clazy.cmake
index a6bf4dd..816c002 100644
--- a/clazy.cmake
+++ b/clazy.cmake
@@ -1,10 +1,11 @@
 #!/usr/bin/env sh
 
-libdir=$("@READLINK_CMD@" -f "$(dirname ${0})/@BIN_RELATIVE_LIBDIR@")
-sharedir=$("@READLINK_CMD@" -f "$(dirname ${0})/@BIN_RELATIVE_SHAREDIR@")
+bindir=$(dirname "$0")
+libdir=$("@READLINK_CMD@" -f "$bindir/@BIN_RELATIVE_LIBDIR@")
+sharedir=$("@READLINK_CMD@" -f "$bindir/@BIN_RELATIVE_SHAREDIR@")
 
 HELP() {
-  echo "Usage: `basename $0` [options] [clang++-options]"
+  echo "Usage: `basename "$0"` [options] [clang++-options]"
   echo
   echo "Static analyzer for C++/Qt code (https://invent.kde.org/sdk/clazy)"
   echo
@@ -42,14 +43,14 @@ PRLIST() {
   if ( test -d "$sharedir/doc/clazy/$1" )
   then
     echo "$2:"
-    ls -1 $sharedir/doc/clazy/$1/README* | awk -F/ '{printf("    %s\n", $NF)}' | sed s/README-// | sed s/\.md$// | sort
+    ls -1 "$sharedir/doc/clazy/$1"/README* | awk -F/ '{printf("    %s\n", $NF)}' | sed s/README-// | sed s/\.md$// | sort
   else
     echo "There are no checkers available for $1"
   fi
 }
 
 PRINFO() {
-  lst=`ls -1 $sharedir/doc/clazy/level*/README*$1* $sharedir/doc/clazy/manuallevel/README*$1* 2>/dev/null`
+  lst=`cd "$sharedir/doc/clazy" 2>/dev/null && ls -1 level*/README*$1* manuallevel/README*$1* 2>/dev/null`
   if ( test ! -z "$lst" )
   then
     for f in $lst
@@ -58,7 +59,7 @@ PRINFO() {
       level=`echo $l | cut -d: -f1`
       checker=`echo $l | cut -d: -f2 | sed s/README-// | sed s/\.md$//`
       echo "== Explanation for checker $checker ($level) =="
-      cat $f
+      cat "$sharedir/doc/clazy/$f"
       echo
     done
   else
@@ -108,6 +109,7 @@ do
   shift
 done
 
+JniInclude=""
 case "$CLAZY_CHECKS" in
   *no-jni-signatures*)
   ;;
@@ -118,7 +120,7 @@ case "$CLAZY_CHECKS" in
         exit 1
     fi
 
-    ExtraClangOptions=$ExtraClangOptions" -idirafter"$ANDROID_NDK"/sysroot/usr/include"
+    JniInclude="-idirafter$ANDROID_NDK/sysroot/usr/include"
   ;;
 esac
 
@@ -127,26 +129,26 @@ ClazyPluginLib=ClazyPlugin@CMAKE_SHARED_LIBRARY_SUFFIX@
 if ( test -f "$libdir/$ClazyPluginLib" )
 then
     # find plugin libraries in install dir
-    export LD_LIBRARY_PATH=$libdir:$LD_LIBRARY_PATH
-    export DYLD_LIBRARY_PATH=$libdir:$DYLD_LIBRARY_PATH
-elif ( test -f "$(dirname $0)/lib/$ClazyPluginLib" )
+    export LD_LIBRARY_PATH="$libdir${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}"
+    export DYLD_LIBRARY_PATH="$libdir${DYLD_LIBRARY_PATH:+:$DYLD_LIBRARY_PATH}"
+elif ( test -f "$bindir/lib/$ClazyPluginLib" )
 then
     # find plugin libraries in build dir
-    export LD_LIBRARY_PATH=$(dirname $0)/lib:$LD_LIBRARY_PATH
-    export DYLD_LIBRARY_PATH=$(dirname $0)/lib:$DYLD_LIBRARY_PATH
+    export LD_LIBRARY_PATH="$bindir/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}"
+    export DYLD_LIBRARY_PATH="$bindir/lib${DYLD_LIBRARY_PATH:+:$DYLD_LIBRARY_PATH}"
 fi
 
 if ( test $# -gt 0 -a "$1" = "--standalone" )
 then
   shift
-  if ( test -f "$(dirname $0)/clazy-standalone" )
+  if ( test -f "$bindir/clazy-standalone" )
   then
     # find binary in install dir
-    $(dirname $0)/clazy-standalone "$@"
+    "$bindir/clazy-standalone" "$@"
   else
     # hope binary is in the expected build dir
-    $(dirname $0)/bin/clazy-standalone "$@"
+    "$bindir/bin/clazy-standalone" "$@"
   fi
 else
-  ${CLANGXX:-clang++} -Qunused-arguments -Xclang -load -Xclang $ClazyPluginLib -Xclang -add-plugin -Xclang clazy $ExtraClangOptions "$@"
+  ${CLANGXX:-clang++} -Qunused-arguments -Xclang -load -Xclang $ClazyPluginLib -Xclang -add-plugin -Xclang clazy $ExtraClangOptions ${JniInclude:+"$JniInclude"} "$@"
 fi
-- 
2.43.0


From 4b873524d84a2f6ee48a04b48efa5ff98a449f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 36/56] fix: the metadata and the documentation name every
 check's fix-its, options, level and title

---
 README.md                                     | 24 ++++----
 checks.json                                   | 55 +++++++++++++++++++
 .../README-modernize-overloaded-connects.md   |  2 +-
 docs/checks/README-qstring-allocations.md     |  2 +-
 docs/checks/README-qstring-varargs.md         |  2 +-
 src/Checks.h                                  | 10 ++++
 6 files changed, 80 insertions(+), 15 deletions(-)

diff --git a/README.md b/README.md
index cafb55f..ea07b2c 100644
--- a/README.md
+++ b/README.md
@@ -224,12 +224,12 @@ clazy runs all checks from level1 by default.
   - [assert-with-side-effects](docs/checks/README-assert-with-side-effects.md)
   - [compare-member-check](docs/checks/README-compare-member-check.md)
   - [container-inside-loop](docs/checks/README-container-inside-loop.md)
-  - [detaching-member](docs/checks/README-detaching-member.md)
+  - [detaching-member](docs/checks/README-detaching-member.md) (fix-detaching-member)
   - [heap-allocated-small-trivial-type](docs/checks/README-heap-allocated-small-trivial-type.md)
   - [ifndef-define-typo](docs/checks/README-ifndef-define-typo.md)
-  - [isempty-vs-count](docs/checks/README-isempty-vs-count.md)
+  - [isempty-vs-count](docs/checks/README-isempty-vs-count.md) (fix-isempty-vs-count)
   - [jni-signatures](docs/checks/README-jni-signatures.md)
-  - [modernize-list-initialization](docs/checks/README-modernize-list-initialization.md)
+  - [modernize-list-initialization](docs/checks/README-modernize-list-initialization.md) (fix-modernize-list-initialization)
   - [qbytearray-conversion-to-c-style](docs/checks/README-qbytearray-conversion-to-c-style.md) (fix-qbytearray-conversion-to-c-style)
   - [qhash-with-char-pointer-key](docs/checks/README-qhash-with-char-pointer-key.md)
   - [qproperty-type-mismatch](docs/checks/README-qproperty-type-mismatch.md)
@@ -248,8 +248,8 @@ clazy runs all checks from level1 by default.
   - [unexpected-flag-enumerator-value](docs/checks/README-unexpected-flag-enumerator-value.md)
   - [unneeded-cast](docs/checks/README-unneeded-cast.md)
   - [unused-result-check](docs/checks/README-unused-result-check.md)
-  - [use-arrow-operator-instead-of-data](docs/checks/README-use-arrow-operator-instead-of-data.md)
-  - [use-chrono-in-qtimer](docs/checks/README-use-chrono-in-qtimer.md)
+  - [use-arrow-operator-instead-of-data](docs/checks/README-use-arrow-operator-instead-of-data.md) (fix-use-arrow-operator-instead-of-data)
+  - [use-chrono-in-qtimer](docs/checks/README-use-chrono-in-qtimer.md) (fix-use-chrono-in-qtimer)
   - [used-qunused-variable](docs/checks/README-used-qunused-variable.md)
 
 - Checks from Level 0:
@@ -272,7 +272,7 @@ clazy runs all checks from level1 by default.
   - [qfileinfo-exists](docs/checks/README-qfileinfo-exists.md) (fix-qfileinfo-exists)
   - [qgetenv](docs/checks/README-qgetenv.md) (fix-qgetenv)
   - [qmap-with-pointer-key](docs/checks/README-qmap-with-pointer-key.md)
-  - [qstring-arg](docs/checks/README-qstring-arg.md)
+  - [qstring-arg](docs/checks/README-qstring-arg.md) (fix-qstring-arg)
   - [qstring-comparison-to-implicit-char](docs/checks/README-qstring-comparison-to-implicit-char.md)
   - [qstring-insensitive-allocation](docs/checks/README-qstring-insensitive-allocation.md)
   - [qt-macros](docs/checks/README-qt-macros.md)
@@ -290,11 +290,11 @@ clazy runs all checks from level1 by default.
   - [child-event-qobject-cast](docs/checks/README-child-event-qobject-cast.md)
   - [connect-3arg-lambda](docs/checks/README-connect-3arg-lambda.md)
   - [const-signal-or-slot](docs/checks/README-const-signal-or-slot.md)
-  - [detaching-temporary](docs/checks/README-detaching-temporary.md)
+  - [detaching-temporary](docs/checks/README-detaching-temporary.md) (fix-detaching-temporary)
   - [foreach](docs/checks/README-foreach.md)
   - [incorrect-emit](docs/checks/README-incorrect-emit.md)
   - [install-event-filter](docs/checks/README-install-event-filter.md)
-  - [modernize-overloaded-connects](docs/checks/README-modernize-overloaded-connects.md)
+  - [modernize-overloaded-connects](docs/checks/README-modernize-overloaded-connects.md) (fix-modernize-overloaded-connects)
   - [non-pod-global-static](docs/checks/README-non-pod-global-static.md)
   - [overridden-signal](docs/checks/README-overridden-signal.md)
   - [post-event](docs/checks/README-post-event.md)
@@ -314,10 +314,10 @@ clazy runs all checks from level1 by default.
 - Checks from Level 2:
 
   - [base-class-event](docs/checks/README-base-class-event.md)
-  - [copyable-polymorphic](docs/checks/README-copyable-polymorphic.md)
+  - [copyable-polymorphic](docs/checks/README-copyable-polymorphic.md) (fix-copyable-polymorphic)
   - [ctor-missing-parent-argument](docs/checks/README-ctor-missing-parent-argument.md)
   - [function-args-by-ref](docs/checks/README-function-args-by-ref.md) (fix-function-args-by-ref)
-  - [function-args-by-value](docs/checks/README-function-args-by-value.md)
+  - [function-args-by-value](docs/checks/README-function-args-by-value.md) (fix-function-args-by-value)
   - [global-const-char-pointer](docs/checks/README-global-const-char-pointer.md)
   - [implicit-casts](docs/checks/README-implicit-casts.md)
   - [missing-qobject-macro](docs/checks/README-missing-qobject-macro.md) (fix-missing-qobject-macro)
@@ -413,9 +413,9 @@ For example `-checks=clazy-qdatetime-utc,clazy-qgetenv"`
 <!-- jq -r '[.checks[] | select(.level == 0) | "clazy-" + .name] | join(",")' checks.json -->
 
 To enable all checks from level0 use:
-`clazy-overloaded-signal,clazy-connect-by-name,clazy-connect-non-signal,clazy-qstring-comparison-to-implicit-char,clazy-wrong-qevent-cast,clazy-lambda-in-connect,clazy-lambda-unique-connection,clazy-qdatetime-utc,clazy-qgetenv,clazy-qstring-insensitive-allocation,clazy-fully-qualified-moc-types,clazy-unused-non-trivial-variable,clazy-connect-not-normalized,clazy-mutable-container-key,clazy-qenums,clazy-qmap-with-pointer-key,clazy-qstring-ref,clazy-strict-iterators,clazy-writing-to-temporary,clazy-container-anti-pattern,clazy-qcolor-from-literal,clazy-qfileinfo-exists,clazy-qstring-arg,clazy-empty-qstringliteral,clazy-qt-macros,clazy-temporary-iterator,clazy-wrong-qglobalstatic,clazy-lowercase-qml-type-name,clazy-no-module-include,clazy-use-static-qregularexpression`  
+`clazy-overloaded-signal,clazy-connect-by-name,clazy-connect-non-signal,clazy-qstring-comparison-to-implicit-char,clazy-wrong-qevent-cast,clazy-lambda-in-connect,clazy-lambda-unique-connection,clazy-qdatetime-utc,clazy-qgetenv,clazy-qstring-insensitive-allocation,clazy-fully-qualified-moc-types,clazy-unused-non-trivial-variable,clazy-connect-not-normalized,clazy-mutable-container-key,clazy-qenums,clazy-qmap-with-pointer-key,clazy-strict-iterators,clazy-writing-to-temporary,clazy-container-anti-pattern,clazy-qcolor-from-literal,clazy-qfileinfo-exists,clazy-qstring-arg,clazy-empty-qstringliteral,clazy-qt-macros,clazy-temporary-iterator,clazy-wrong-qglobalstatic,clazy-lowercase-qml-type-name,clazy-no-module-include,clazy-use-static-qregularexpression`  
 To enable all checks from level1 use:
-`clazy-auto-unexpected-qstringbuilder,clazy-connect-3arg-lambda,clazy-const-signal-or-slot,clazy-detaching-temporary,clazy-foreach,clazy-incorrect-emit,clazy-install-event-filter,clazy-non-pod-global-static,clazy-post-event,clazy-qdeleteall,clazy-qlatin1string-non-ascii,clazy-qproperty-without-notify,clazy-qstring-left,clazy-range-loop-detach,clazy-range-loop-reference,clazy-returning-data-from-temporary,clazy-rule-of-two-soft,clazy-child-event-qobject-cast,clazy-virtual-signal,clazy-overridden-signal,clazy-qhash-namespace,clazy-skipped-base-method,clazy-readlock-detaching`  
+`clazy-auto-unexpected-qstringbuilder,clazy-connect-3arg-lambda,clazy-const-signal-or-slot,clazy-detaching-temporary,clazy-foreach,clazy-incorrect-emit,clazy-install-event-filter,clazy-non-pod-global-static,clazy-post-event,clazy-qdeleteall,clazy-qlatin1string-non-ascii,clazy-qproperty-without-notify,clazy-qstring-left,clazy-range-loop-detach,clazy-range-loop-reference,clazy-returning-data-from-temporary,clazy-rule-of-two-soft,clazy-child-event-qobject-cast,clazy-virtual-signal,clazy-overridden-signal,clazy-qhash-namespace,clazy-skipped-base-method,clazy-readlock-detaching,clazy-modernize-overloaded-connects`  
 To enable all checks from level2 use:
 `clazy-ctor-missing-parent-argument,clazy-base-class-event,clazy-copyable-polymorphic,clazy-function-args-by-ref,clazy-function-args-by-value,clazy-global-const-char-pointer,clazy-implicit-casts,clazy-missing-qobject-macro,clazy-missing-typeinfo,clazy-old-style-connect,clazy-qstring-allocations,clazy-returning-void-expression,clazy-rule-of-three,clazy-virtual-call-ctor,clazy-static-pmf`
 
diff --git a/checks.json b/checks.json
index e33a541..1899e08 100644
--- a/checks.json
+++ b/checks.json
@@ -74,6 +74,11 @@
             "name": "isempty-vs-count",
             "class_name": "IsEmptyVSCount",
             "level": -1,
+            "fixits": [
+                {
+                    "name": "isempty-vs-count"
+                }
+            ],
             "categories": ["readability"],
             "visits_stmts": true,
             "can_ignore_includes": true
@@ -220,6 +225,11 @@
             "name": "unused-non-trivial-variable",
             "level": 0,
             "categories": ["readability"],
+            "options": [
+                {
+                    "name": "no-whitelist"
+                }
+            ],
             "visits_stmts": true,
             "can_ignore_includes": true
         },
@@ -316,6 +326,11 @@
         {
             "name": "qstring-arg",
             "level": 0,
+            "fixits": [
+                {
+                    "name": "qstring-arg"
+                }
+            ],
             "categories": ["performance", "qstring"],
             "options": [
                 {
@@ -404,6 +419,11 @@
         {
             "name": "detaching-temporary",
             "level": 1,
+            "fixits": [
+                {
+                    "name": "detaching-temporary"
+                }
+            ],
             "categories": ["containers", "performance"],
             "visits_stmts": true,
             "can_ignore_includes": true
@@ -571,6 +591,11 @@
         {
             "name": "copyable-polymorphic",
             "level": 2,
+            "fixits": [
+                {
+                    "name": "copyable-polymorphic"
+                }
+            ],
             "categories": ["cpp", "bug"],
             "visits_decls": true
         },
@@ -595,6 +620,11 @@
         {
             "name": "function-args-by-value",
             "level": 2,
+            "fixits": [
+                {
+                    "name": "function-args-by-value"
+                }
+            ],
             "categories": ["cpp", "performance"],
             "options": [
                 {
@@ -715,6 +745,11 @@
         {
             "name": "detaching-member",
             "level": -1,
+            "fixits": [
+                {
+                    "name": "detaching-member"
+                }
+            ],
             "categories": ["containers", "performance"],
             "visits_stmts": true,
             "can_ignore_includes": true
@@ -744,6 +779,11 @@
             "name": "use-chrono-in-qtimer",
             "class_name": "UseChronoInQTimer",
             "level": -1,
+            "fixits": [
+                {
+                    "name": "use-chrono-in-qtimer"
+                }
+            ],
             "categories": ["readability"],
             "visits_stmts": true,
             "can_ignore_includes": true
@@ -752,6 +792,11 @@
             "name": "use-arrow-operator-instead-of-data",
             "class_name": "UseArrowOperatorInsteadOfData",
             "level": -1,
+            "fixits": [
+                {
+                    "name": "use-arrow-operator-instead-of-data"
+                }
+            ],
             "categories": ["readability"],
             "visits_stmts": true
         },
@@ -797,12 +842,22 @@
         {
             "name": "modernize-overloaded-connects",
             "level": 1,
+            "fixits": [
+                {
+                    "name": "modernize-overloaded-connects"
+                }
+            ],
             "visits_stmts": true,
             "categories": ["readability"]
         },
         {
             "name": "modernize-list-initialization",
             "level": -1,
+            "fixits": [
+                {
+                    "name": "modernize-list-initialization"
+                }
+            ],
             "visits_stmts": true,
             "categories": ["readability"]
         }
diff --git a/docs/checks/README-modernize-overloaded-connects.md b/docs/checks/README-modernize-overloaded-connects.md
index ce6a825..7802efa 100644
--- a/docs/checks/README-modernize-overloaded-connects.md
+++ b/docs/checks/README-modernize-overloaded-connects.md
@@ -1,4 +1,4 @@
-# modernize-overloaded-signals
+# modernize-overloaded-connects
 
 Suggests to remove `QOverload`/`qOverload`/`static_cast` when a signal/slot is no longer overloaded.
 Especially with removed overloads in Qt API, lots of places were not cleaned up.
diff --git a/docs/checks/README-qstring-allocations.md b/docs/checks/README-qstring-allocations.md
index c156353..74b13e5 100644
--- a/docs/checks/README-qstring-allocations.md
+++ b/docs/checks/README-qstring-allocations.md
@@ -1,4 +1,4 @@
-# qstring-unneeded-heap-allocations
+# qstring-allocations
 
 Finds places with unneeded memory allocations due to temporary `QString`s.
 
diff --git a/docs/checks/README-qstring-varargs.md b/docs/checks/README-qstring-varargs.md
index 8bfa618..5c17329 100644
--- a/docs/checks/README-qstring-varargs.md
+++ b/docs/checks/README-qstring-varargs.md
@@ -1,4 +1,4 @@
-# qstring-varagars
+# qstring-varargs
 
 This implements the equivalent of `-Wnon-pod-varargs` but only for `QString`.
 
diff --git a/src/Checks.h b/src/Checks.h
index 4d9ebfc..1bcd033 100644
--- a/src/Checks.h
+++ b/src/Checks.h
@@ -123,11 +123,14 @@ void CheckManager::registerChecks()
     registerCheck(check<CompareMemberCheck>("compare-member-check", ManualCheckLevel, RegisteredCheck::Option_None, true));
     registerCheck(check<ContainerInsideLoop>("container-inside-loop", ManualCheckLevel, RegisteredCheck::Option_VisitsStmts, true));
     registerCheck(check<DetachingMember>("detaching-member", ManualCheckLevel, RegisteredCheck::Option_VisitsStmts, true));
+    registerFixIt(1, "fix-detaching-member", "detaching-member");
     registerCheck(check<HeapAllocatedSmallTrivialType>("heap-allocated-small-trivial-type", ManualCheckLevel, RegisteredCheck::Option_VisitsDecls, false));
     registerCheck(check<IfndefDefineTypo>("ifndef-define-typo", ManualCheckLevel, RegisteredCheck::Option_PreprocessorCallbacks, false));
     registerCheck(check<IsEmptyVSCount>("isempty-vs-count", ManualCheckLevel, RegisteredCheck::Option_VisitsStmts, true));
+    registerFixIt(1, "fix-isempty-vs-count", "isempty-vs-count");
     registerCheck(check<JniSignatures>("jni-signatures", ManualCheckLevel, RegisteredCheck::Option_VisitsStmts, true));
     registerCheck(check<ModernizeListInitialization>("modernize-list-initialization", ManualCheckLevel, RegisteredCheck::Option_VisitsStmts, false));
+    registerFixIt(1, "fix-modernize-list-initialization", "modernize-list-initialization");
     registerCheck(check<QBytearrayConversionToCStyle>("qbytearray-conversion-to-c-style", ManualCheckLevel, RegisteredCheck::Option_VisitsStmts, true));
     registerFixIt(1, "fix-qbytearray-conversion-to-c-style", "qbytearray-conversion-to-c-style");
     registerCheck(check<QHashWithCharPointerKey>("qhash-with-char-pointer-key", ManualCheckLevel, RegisteredCheck::Option_VisitsDecls, false));
@@ -152,7 +155,9 @@ void CheckManager::registerChecks()
     registerCheck(check<UnneededCast>("unneeded-cast", ManualCheckLevel, RegisteredCheck::Option_VisitsStmts, true));
     registerCheck(check<UnusedResultCheck>("unused-result-check", ManualCheckLevel, RegisteredCheck::Option_VisitsStmts, true));
     registerCheck(check<UseArrowOperatorInsteadOfData>("use-arrow-operator-instead-of-data", ManualCheckLevel, RegisteredCheck::Option_VisitsStmts, false));
+    registerFixIt(1, "fix-use-arrow-operator-instead-of-data", "use-arrow-operator-instead-of-data");
     registerCheck(check<UseChronoInQTimer>("use-chrono-in-qtimer", ManualCheckLevel, RegisteredCheck::Option_VisitsStmts, true));
+    registerFixIt(1, "fix-use-chrono-in-qtimer", "use-chrono-in-qtimer");
     registerCheck(check<UsedQUnusedVariable>("used-qunused-variable", ManualCheckLevel, RegisteredCheck::Option_VisitsDecls, false));
     registerCheck(check<ConnectByName>("connect-by-name", CheckLevel0, RegisteredCheck::Option_VisitsDecls, false));
     registerCheck(check<ConnectNonSignal>("connect-non-signal", CheckLevel0, RegisteredCheck::Option_VisitsStmts, true));
@@ -178,6 +183,7 @@ void CheckManager::registerChecks()
     registerFixIt(1, "fix-qgetenv", "qgetenv");
     registerCheck(check<QMapWithPointerKey>("qmap-with-pointer-key", CheckLevel0, RegisteredCheck::Option_VisitsDecls, false));
     registerCheck(check<QStringArg>("qstring-arg", CheckLevel0, RegisteredCheck::Option_VisitsStmts, true));
+    registerFixIt(1, "fix-qstring-arg", "qstring-arg");
     registerCheck(check<QStringComparisonToImplicitChar>("qstring-comparison-to-implicit-char", CheckLevel0, RegisteredCheck::Option_VisitsStmts, false));
     registerCheck(check<QStringInsensitiveAllocation>("qstring-insensitive-allocation", CheckLevel0, RegisteredCheck::Option_VisitsStmts, true));
     registerCheck(check<QtMacros>("qt-macros", CheckLevel0, RegisteredCheck::Option_PreprocessorCallbacks, false));
@@ -194,10 +200,12 @@ void CheckManager::registerChecks()
     registerCheck(check<Connect3ArgLambda>("connect-3arg-lambda", CheckLevel1, RegisteredCheck::Option_VisitsStmts, true));
     registerCheck(check<ConstSignalOrSlot>("const-signal-or-slot", CheckLevel1, RegisteredCheck::Option_VisitsStmts | RegisteredCheck::Option_VisitsDecls, true));
     registerCheck(check<DetachingTemporary>("detaching-temporary", CheckLevel1, RegisteredCheck::Option_VisitsStmts, true));
+    registerFixIt(1, "fix-detaching-temporary", "detaching-temporary");
     registerCheck(check<Foreach>("foreach", CheckLevel1, RegisteredCheck::Option_VisitsStmts, true));
     registerCheck(check<IncorrectEmit>("incorrect-emit", CheckLevel1, RegisteredCheck::Option_VisitsStmts | RegisteredCheck::Option_PreprocessorCallbacks, true));
     registerCheck(check<InstallEventFilter>("install-event-filter", CheckLevel1, RegisteredCheck::Option_VisitsStmts, true));
     registerCheck(check<ModernizeOverloadedConnects>("modernize-overloaded-connects", CheckLevel1, RegisteredCheck::Option_VisitsStmts, false));
+    registerFixIt(1, "fix-modernize-overloaded-connects", "modernize-overloaded-connects");
     registerCheck(check<NonPodGlobalStatic>("non-pod-global-static", CheckLevel1, RegisteredCheck::Option_VisitsStmts, true));
     registerCheck(check<OverriddenSignal>("overridden-signal", CheckLevel1, RegisteredCheck::Option_VisitsDecls, true));
     registerCheck(check<PostEvent>("post-event", CheckLevel1, RegisteredCheck::Option_VisitsStmts, true));
@@ -217,10 +225,12 @@ void CheckManager::registerChecks()
     registerCheck(check<VirtualSignal>("virtual-signal", CheckLevel1, RegisteredCheck::Option_VisitsDecls, false));
     registerCheck(check<BaseClassEvent>("base-class-event", CheckLevel2, RegisteredCheck::Option_VisitsDecls, false));
     registerCheck(check<CopyablePolymorphic>("copyable-polymorphic", CheckLevel2, RegisteredCheck::Option_VisitsDecls, false));
+    registerFixIt(1, "fix-copyable-polymorphic", "copyable-polymorphic");
     registerCheck(check<CtorMissingParentArgument>("ctor-missing-parent-argument", CheckLevel2, RegisteredCheck::Option_VisitsDecls, false));
     registerCheck(check<FunctionArgsByRef>("function-args-by-ref", CheckLevel2, RegisteredCheck::Option_VisitsStmts | RegisteredCheck::Option_VisitsDecls, true));
     registerFixIt(1, "fix-function-args-by-ref", "function-args-by-ref");
     registerCheck(check<FunctionArgsByValue>("function-args-by-value", CheckLevel2, RegisteredCheck::Option_VisitsStmts | RegisteredCheck::Option_VisitsDecls, true));
+    registerFixIt(1, "fix-function-args-by-value", "function-args-by-value");
     registerCheck(check<GlobalConstCharPointer>("global-const-char-pointer", CheckLevel2, RegisteredCheck::Option_VisitsDecls, false));
     registerCheck(check<ImplicitCasts>("implicit-casts", CheckLevel2, RegisteredCheck::Option_VisitsStmts, true));
     registerCheck(check<MissingQObjectMacro>("missing-qobject-macro", CheckLevel2, RegisteredCheck::Option_VisitsDecls | RegisteredCheck::Option_PreprocessorCallbacks, false));
-- 
2.43.0


From 1b88fc60f859a94ac05be04154028c5aadcaef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 37/56] fix: change the use of a macro, not its definition,
 when exporting a replacement

---
 src/FixItExporter.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index e6269e4..28f4f72 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -116,7 +116,11 @@ tooling::Replacement FixItExporter::ConvertFixIt(const FixItHint &Hint)
 {
     // TODO: Proper handling of macros
     // https://stackoverflow.com/questions/24062989/clang-fails-replacing-a-statement-if-it-contains-a-macro
-    tooling::Replacement Replacement;
+    // A macro's argument is changed where it's written, and so is the use of a macro, rather than its definition
+    CharSourceRange RemoveRange = Lexer::makeFileCharRange(Hint.RemoveRange, SourceMgr, LangOpts);
+    if (RemoveRange.isInvalid()) {
+        RemoveRange = Hint.RemoveRange;
+    }
     if (Hint.CodeToInsert.empty()) {
         if (Hint.InsertFromRange.isValid()) {
             clang::SourceLocation b(Hint.InsertFromRange.getBegin());
@@ -129,11 +133,11 @@ tooling::Replacement FixItExporter::ConvertFixIt(const FixItHint &Hint)
             }
             clang::SourceLocation e(clang::Lexer::getLocForEndOfToken(_e, 0, SourceMgr, LangOpts));
             StringRef Text(SourceMgr.getCharacterData(b), SourceMgr.getCharacterData(e) - SourceMgr.getCharacterData(b));
-            return {SourceMgr, Hint.RemoveRange, Text};
+            return {SourceMgr, RemoveRange, Text};
         }
-        return {SourceMgr, Hint.RemoveRange, ""};
+        return {SourceMgr, RemoveRange, ""};
     }
-    return {SourceMgr, Hint.RemoveRange, Hint.CodeToInsert};
+    return {SourceMgr, RemoveRange, Hint.CodeToInsert};
 }
 
 bool FixItExporter::CanApplyFixIts(const Diagnostic &Info) const
-- 
2.43.0


From 737701ee0b369649ab46b6e834b0f4c9c3c93fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 38/56] fix: isempty-vs-count: keep the object as it is written
 in front of the member

---
 src/checks/manuallevel/isempty-vs-count.cpp | 25 +++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/checks/manuallevel/isempty-vs-count.cpp b/src/checks/manuallevel/isempty-vs-count.cpp
index 2ffb9a5..94f01d6 100644
--- a/src/checks/manuallevel/isempty-vs-count.cpp
+++ b/src/checks/manuallevel/isempty-vs-count.cpp
@@ -22,6 +22,12 @@
 
 using namespace clang;
 
+// Everything in front of the member's name, as written: The container and the operator that leads to its members
+static std::string memberAccessText(const MemberExpr *memberExpr, const SourceManager &sm, const LangOptions &lo)
+{
+    return Lexer::getSourceText(CharSourceRange::getCharRange(memberExpr->getBeginLoc(), memberExpr->getMemberLoc()), sm, lo).str();
+}
+
 void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
 {
     if (auto op = dyn_cast<ExprWithCleanups>(stmt)) {
@@ -48,19 +54,22 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
             if (!intliteral) {
                 return;
             }
-            auto *baseExpr = dyn_cast<MemberExpr>(method->getCallee())->getBase()->IgnoreParenImpCasts();
-            StringRef baseText = getSourceText(baseExpr);
+            auto *calleeExpr = dyn_cast<MemberExpr>(method->getCallee());
+            if (!calleeExpr) {
+                return;
+            }
+            const std::string accessText = memberAccessText(calleeExpr, sm(), lo());
 
             if ((isEqual && intliteral->getValue().isZero()) || (isSmaller && intliteral->getValue().isOne())) {
                 emitWarning(stmt->getBeginLoc(),
                             "use isEmpty() instead",
-                            {FixItHint::CreateReplacement(binaryOpt->getSourceRange(), baseText.str() + ".isEmpty()")});
+                            {FixItHint::CreateReplacement(binaryOpt->getSourceRange(), accessText + "isEmpty()")});
             }
 
             if (isGreater && intliteral->getValue().isZero()) {
                 emitWarning(stmt->getBeginLoc(),
                             "use isEmpty() instead",
-                            {FixItHint::CreateReplacement(binaryOpt->getSourceRange(), "!" + baseText.str() + ".isEmpty()")});
+                            {FixItHint::CreateReplacement(binaryOpt->getSourceRange(), "!" + accessText + "isEmpty()")});
             }
         }
     }
@@ -84,11 +93,10 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
-    auto *baseExpr = memberExpr->getBase()->IgnoreParenImpCasts();
+    const std::string accessText = memberAccessText(memberExpr, sm(), lo());
     if (clazy::classIsOneOf(method->getParent(), {"QMultiHash", "QMultiMap"}) && memberCall->getNumArgs() == 2) {
-        StringRef baseText = getSourceText(baseExpr);
         StringRef argText = getSourceText(memberCall->getArg(0));
-        const auto fixit = FixItHint::CreateReplacement(stmt->getSourceRange(), (baseText + ".contains(" + argText + ")").str());
+        const auto fixit = FixItHint::CreateReplacement(stmt->getSourceRange(), accessText + "contains(" + argText.str() + ")");
 
         emitWarning(stmt->getBeginLoc(), "use contains() instead", {fixit});
         return;
@@ -109,8 +117,7 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
         }
     }
 
-    StringRef BaseText = getSourceText(baseExpr);
-    const auto fixit = FixItHint::CreateReplacement(fixitRange, (operatorPrefix + BaseText + ".isEmpty()").str());
+    const auto fixit = FixItHint::CreateReplacement(fixitRange, operatorPrefix + accessText + "isEmpty()");
 
     emitWarning(stmt->getBeginLoc(), "use isEmpty() instead", {fixit});
 }
-- 
2.43.0


From 61331c2c9a170dd6c26ba9b499cb84d219c137a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 39/56] fix: use-arrow-operator-instead-of-data: no broken
 fix-it for ->data() and parenthesised calls

---
 .../use-arrow-operator-instead-of-data.cpp      | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp b/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp
index 2a27360..a84418d 100644
--- a/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp
+++ b/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp
@@ -53,19 +53,10 @@ void UseArrowOperatorInsteadOfData::VisitStmt(clang::Stmt *stmt)
     constexpr int MinPossibleColonPos = sizeof("QPointer") - 1;
     const std::string ClassName = func.substr(0, func.find(':', MinPossibleColonPos));
 
-    auto begin = callExpr->getExprLoc();
-    const auto end = callExpr->getEndLoc();
-
-    // find '.' in ptr.data()
-    int dotOffset = 0;
-    const char *d = sm().getCharacterData(begin);
-    while (*d != '.') {
-        dotOffset--;
-        d--;
+    auto *memberExpr = dyn_cast<MemberExpr>(callExpr->getCallee()->IgnoreParens());
+    const auto operatorLoc = memberExpr ? memberExpr->getOperatorLoc() : SourceLocation();
+    if (operatorLoc.isValid() && !memberExpr->isArrow()) {
+        fixits.push_back(FixItHint::CreateRemoval(SourceRange{operatorLoc, callExpr->getEndLoc()}));
     }
-    begin = begin.getLocWithOffset(dotOffset);
-
-    fixits.push_back(FixItHint::CreateRemoval(SourceRange{begin, end}));
-
     emitWarning(callExpr->getBeginLoc(), "Use operator -> directly instead of " + ClassName + "::data()->", fixits);
 }
-- 
2.43.0


From d9419cd6ce534ee47cf6a0af408fb94c9f24e0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 40/56] fix: qfileinfo-exists: only for a temporary made of a
 single QString

---
 src/checks/level0/qfileinfo-exists.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/checks/level0/qfileinfo-exists.cpp b/src/checks/level0/qfileinfo-exists.cpp
index dc257de..5543773 100644
--- a/src/checks/level0/qfileinfo-exists.cpp
+++ b/src/checks/level0/qfileinfo-exists.cpp
@@ -25,8 +25,19 @@ void QFileInfoExists::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
-    auto *ctorExpr = clazy::getFirstChildOfType<CXXConstructExpr>(existsCall);
-    if (!ctorExpr || clazy::simpleArgTypeName(ctorExpr->getConstructor(), 0, lo()) != qtNamespaced("QString")) {
+    // Only for a temporary created from a file name, not for one that a function returns
+    auto *objectExpr = existsCall->getImplicitObjectArgument()->IgnoreParenImpCasts();
+    if (auto *materialized = dyn_cast<MaterializeTemporaryExpr>(objectExpr)) {
+        objectExpr = materialized->getSubExpr()->IgnoreParenImpCasts();
+    }
+    if (auto *cast = dyn_cast<CXXFunctionalCastExpr>(objectExpr)) {
+        objectExpr = cast->getSubExpr()->IgnoreParenImpCasts();
+    }
+    if (auto *bind = dyn_cast<CXXBindTemporaryExpr>(objectExpr)) {
+        objectExpr = bind->getSubExpr();
+    }
+    auto *ctorExpr = dyn_cast<CXXConstructExpr>(objectExpr);
+    if (!ctorExpr || ctorExpr->getNumArgs() != 1 || clazy::simpleArgTypeName(ctorExpr->getConstructor(), 0, lo()) != qtNamespaced("QString")) {
         return;
     }
 
-- 
2.43.0


From 7cc4d7c6375a35b28101b87be14533294a63f1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 41/56] fix: qcolor-from-literal: the fix-it for black and for
 colours with an alpha channel compiles

---
 src/checks/level0/qcolor-from-literal.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/checks/level0/qcolor-from-literal.cpp b/src/checks/level0/qcolor-from-literal.cpp
index 73c3fa7..1f1fca6 100644
--- a/src/checks/level0/qcolor-from-literal.cpp
+++ b/src/checks/level0/qcolor-from-literal.cpp
@@ -61,13 +61,14 @@ public:
     {
         auto *lt = result.Nodes.getNodeAs<StringLiteral>("myLiteral");
         const Expr *replaceExpr = lt; // When QColor::fromString is used, we want to wrap the QColor constructor around it
-        bool isStaticFromString = false;
+        bool isConstructorWritten = false; // Otherwise it's a conversion or fromString, which takes or gets replaced by a single expression
         if (auto res = result.Nodes.getNodeAs<CallExpr>("methodCall"); res && res->getNumArgs() == 1) {
             if (Expr *argExpr = const_cast<Expr *>(res->getArg(0))) {
                 lt = clazy::getFirstChildOfType<StringLiteral>(argExpr);
                 replaceExpr = res;
-                isStaticFromString = true;
             }
+        } else if (auto ctor = result.Nodes.getNodeAs<CXXConstructExpr>("ctorCall")) {
+            isConstructorWritten = ctor->getParenOrBraceRange().isValid();
         }
         if (!lt) {
             return;
@@ -110,10 +111,12 @@ public:
                 fixit = prefixHex(rColor) + sep + prefixHex(gColor) + sep + prefixHex(bColor) + sep + prefixHex(aColor);
                 message = "The QColor ctor taking ints is cheaper than one taking string literals";
             } else {
-                fixit = "0x" + twoDigit(rColor) + twoDigit(gColor) + twoDigit(bColor);
+                const std::string rgb = twoDigit(rColor) + twoDigit(gColor) + twoDigit(bColor);
+                // A literal zero is a null pointer too, thus ambiguous
+                fixit = rgb == "000000" ? "qRgb(0, 0, 0)" : "0x" + rgb;
                 message = "The QColor ctor taking RGB int value is cheaper than one taking string literals";
             }
-            if (isStaticFromString) {
+            if (replaceExpr != lt || (doubleDigitA && !isConstructorWritten)) {
                 fixit = "QColor(" + fixit + ")";
             }
             m_check->emitWarning(replaceExpr->getBeginLoc(), message, {clang::FixItHint::CreateReplacement(replaceExpr->getSourceRange(), fixit)});
@@ -170,7 +173,7 @@ void QColorFromLiteral::VisitStmt(Stmt *stmt)
 void QColorFromLiteral::registerASTMatchers(MatchFinder &finder)
 {
     m_astMatcherCallBack = std::make_unique<QColorFromLiteral_Callback>(this);
-    finder.addMatcher(cxxConstructExpr(hasDeclaration(namedDecl(hasName("QColor"))), hasArgument(0, stringLiteral().bind("myLiteral"))),
+    finder.addMatcher(cxxConstructExpr(hasDeclaration(namedDecl(hasName("QColor"))), hasArgument(0, stringLiteral().bind("myLiteral"))).bind("ctorCall"),
                       m_astMatcherCallBack.get());
     finder.addMatcher(callExpr(hasDeclaration(cxxMethodDecl(hasName("fromString"), hasParent(cxxRecordDecl(hasName("QColor")))))).bind("methodCall"),
                       m_astMatcherCallBack.get());
-- 
2.43.0


From 4f365d0d9d9b6166146908a48ebd4a4bb4391e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 42/56] fix: qdatetime-utc: replace the whole call, keep the
 qualification

---
 src/checks/level0/qdatetime-utc.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/checks/level0/qdatetime-utc.cpp b/src/checks/level0/qdatetime-utc.cpp
index af897ea..9ccd704 100644
--- a/src/checks/level0/qdatetime-utc.cpp
+++ b/src/checks/level0/qdatetime-utc.cpp
@@ -66,6 +66,16 @@ void QDateTimeUtc::VisitStmt(clang::Stmt *stmt)
     }
 
     std::vector<FixItHint> fixits;
-    clazy::transformTwoCallsIntoOneV2(astContext(), secondCall, replacement, fixits);
+    SourceLocation nameLoc;
+    if (auto *declRef = dyn_cast<DeclRefExpr>(firstCall->getCallee()->IgnoreParenImpCasts())) {
+        nameLoc = declRef->getLocation();
+    } else if (auto *memberExpr = dyn_cast<MemberExpr>(firstCall->getCallee()->IgnoreParenImpCasts())) {
+        nameLoc = memberExpr->getMemberLoc();
+    }
+    // Everything in front of the function's name stays as it's written: The class might be qualified, or an alias
+    const StringRef scope = getSourceText(CharSourceRange::getCharRange(firstCall->getBeginLoc(), nameLoc));
+    if (!scope.empty()) {
+        fixits.push_back(FixItHint::CreateReplacement(stmt->getSourceRange(), scope.str() + replacement.substr(2)));
+    }
     emitWarning(stmt->getBeginLoc(), "Use QDateTime" + replacement + " instead. It is significantly faster", fixits);
 }
-- 
2.43.0


From 7343dcbe8eb15e14437e94ce6120a3e3ba50f193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 43/56] fix: qbytearray-conversion-to-c-style: keep the meaning
 of operators and of functional casts

---
 .../qbytearray-conversion-to-c-style.cpp      | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
index eea17d2..4758bfc 100644
--- a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
+++ b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
@@ -51,7 +51,8 @@ void QBytearrayConversionToCStyle::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
-    if (auto *funcCastExpr = clazy::getFirstChildOfType<CXXFunctionalCastExpr>(stmt)) {
+    if (auto *funcCastExpr = clazy::getFirstChildOfType<CXXFunctionalCastExpr>(stmt); 
+        funcCastExpr && sm().getExpansionRange(funcCastExpr->getSourceRange()).getAsRange() == sm().getExpansionRange(sr).getAsRange()) {
         auto *literal = clazy::getFirstChildOfType<StringLiteral>(funcCastExpr);
         if (!literal) {
             return;
@@ -89,15 +90,10 @@ void QBytearrayConversionToCStyle::VisitStmt(clang::Stmt *stmt)
         }
     }
 
-    SourceLocation begin = sm().getSpellingLoc(sr.getBegin());
-    SourceLocation end = sm().getSpellingLoc(sr.getEnd());
-    CharSourceRange r = CharSourceRange::getTokenRange(begin, end);
-    if (!r.isValid()) {
-        return;
-    }
-
-    StringRef text = Lexer::getSourceText(r, sm(), lo());
+    const StringRef text = getSourceText(CharSourceRange::getTokenRange(sr));
     if (text.empty()) {
+        // Written partly by a macro
+        emitWarning(sr.getBegin(), msg);
         return;
     }
 
@@ -109,6 +105,13 @@ void QBytearrayConversionToCStyle::VisitStmt(clang::Stmt *stmt)
         }
     }
 
-    std::vector<FixItHint> fixits = {clazy::createReplacement(sr, std::string{text} + ".constData()")};
+    // A postfix operator only applies to the last operand of these
+    const Expr *object = memberExpr->getImplicitObjectArgument()->IgnoreImplicit();
+    auto *objectOpCall = dyn_cast<CXXOperatorCallExpr>(object);
+    const bool needsParens = isa<UnaryOperator, BinaryOperator, AbstractConditionalOperator, CStyleCastExpr>(object)
+        || (objectOpCall && objectOpCall->getOperator() != clang::OO_Subscript && objectOpCall->getOperator() != clang::OO_Call);
+    const std::string objectText = needsParens ? "(" + text.str() + ")" : text.str();
+
+    std::vector<FixItHint> fixits = {clazy::createReplacement(sr, objectText + ".constData()")};
     emitWarning(sr.getBegin(), msg, fixits);
 }
-- 
2.43.0


From 8d86b4b62f6b90d9dd12351a1b75a4dfaf17adef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 44/56] fix: detaching checks: find the subscript's bracket in
 spaced and derived lists

---
 src/checks/detachingbase.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/checks/detachingbase.cpp b/src/checks/detachingbase.cpp
index 9840940..6d5c305 100644
--- a/src/checks/detachingbase.cpp
+++ b/src/checks/detachingbase.cpp
@@ -45,12 +45,11 @@ std::vector<FixItHint> DetachingBase::getFixitHints(StringRef className, StringR
         } else if (auto *operatorCall = dyn_cast<CXXOperatorCallExpr>(callExpr); operatorCall && it->first == "operator[]") {
             StringRef argText = Lexer::getSourceText(CharSourceRange::getTokenRange(operatorCall->getArg(1)->getSourceRange()), sm(), lo());
             std::string operatorRepleacement = ("." + it->second + "(" + argText + ")").str();
-            SourceLocation left;
-            if (isa<MemberExpr>(operatorCall->getArg(0))) {
-                left = operatorCall->getArg(1)->getBeginLoc().getLocWithOffset(-1);
-            } else {
-                // Clang SourcRanges are very confusing. Get the location of the argument to the call and go one to the left. Works in macros too!
-                left = operatorCall->getArg(0)->getEndLoc().getLocWithOffset(1);
+            const SourceLocation lastToken = operatorCall->getArg(0)->getEndLoc();
+            SourceLocation left = Lexer::getLocForEndOfToken(lastToken, 0, sm(), lo());
+            if (left.isInvalid()) {
+                // Inside a macro's argument
+                left = lastToken.getLocWithOffset(Lexer::MeasureTokenLength(sm().getSpellingLoc(lastToken), sm(), lo()));
             }
             SourceLocation right = operatorCall->getEndLoc();
             hints.emplace_back(FixItHint::CreateReplacement(SourceRange(left, right), operatorRepleacement));
-- 
2.43.0


From 564a6c03c1f5a336f66ab2bbd0a2510a84920fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 45/56] fix: use-chrono-in-qtimer: don't crash on divisions by
 zero, nor overflow

---
 src/checks/manuallevel/use-chrono-in-qtimer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/checks/manuallevel/use-chrono-in-qtimer.cpp b/src/checks/manuallevel/use-chrono-in-qtimer.cpp
index 28b00f5..bdaf41a 100644
--- a/src/checks/manuallevel/use-chrono-in-qtimer.cpp
+++ b/src/checks/manuallevel/use-chrono-in-qtimer.cpp
@@ -11,6 +11,8 @@
 #include "PreProcessorVisitor.h"
 #include <clang/AST/AST.h>
 
+#include <limits>
+
 using namespace clang;
 
 static int unpackValue(clang::Expr *expr)
@@ -32,10 +34,11 @@ static int unpackValue(clang::Expr *expr)
     }
 
     if (binaryOp->getOpcode() == BO_Mul) {
-        return left * right;
+        const long long product = static_cast<long long>(left) * right;
+        return product > std::numeric_limits<int>::max() ? -1 : static_cast<int>(product);
     }
 
-    if (binaryOp->getOpcode() == BO_Div) {
+    if (binaryOp->getOpcode() == BO_Div && right != 0) {
         return left / right;
     }
 
-- 
2.43.0


From dbe10d5d60a8d09c5e799edd977b8e47e4d6aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 46/56] fix: auto-unexpected-qstringbuilder: replace auto only

---
 .../level1/auto-unexpected-qstringbuilder.cpp     | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/checks/level1/auto-unexpected-qstringbuilder.cpp b/src/checks/level1/auto-unexpected-qstringbuilder.cpp
index 5838be6..f9496fd 100644
--- a/src/checks/level1/auto-unexpected-qstringbuilder.cpp
+++ b/src/checks/level1/auto-unexpected-qstringbuilder.cpp
@@ -45,16 +45,13 @@ void AutoUnexpectedQStringBuilder::VisitDecl(Decl *decl)
         return;
     }
 
-    std::string replacement = "QString " + clazy::name(varDecl).str();
-
-    if (qualtype.isConstQualified()) {
-        replacement = "const " + replacement;
-    }
-
-    SourceLocation start = varDecl->getBeginLoc();
-    SourceLocation end = varDecl->getLocation();
     std::vector<FixItHint> fixits;
-    fixits.push_back(clazy::createReplacement({start, end}, replacement));
+    // Only "auto" is replaced, what is around it (static, const, other variables) stays. The init-capture of a lambda has none.
+    if (const TypeSourceInfo *typeInfo = varDecl->isInitCapture() ? nullptr : varDecl->getTypeSourceInfo()) {
+        if (auto autoLoc = typeInfo->getTypeLoc().getUnqualifiedLoc().getAs<AutoTypeLoc>()) {
+            fixits.push_back(clazy::createReplacement({autoLoc.getNameLoc(), autoLoc.getNameLoc()}, "QString"));
+        }
+    }
 
     emitWarning(decl->getBeginLoc(), "auto deduced to be QStringBuilder instead of QString. Possible crash.", fixits);
 }
-- 
2.43.0


From cde1c42b183235428d7041af51231351bcd21159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 47/56] fix: copyable-polymorphic: don't redeclare the default
 constructor, nor name what has no name

---
 src/checks/level2/copyable-polymorphic.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/checks/level2/copyable-polymorphic.cpp b/src/checks/level2/copyable-polymorphic.cpp
index 9ade947..e7bd4b3 100644
--- a/src/checks/level2/copyable-polymorphic.cpp
+++ b/src/checks/level2/copyable-polymorphic.cpp
@@ -16,6 +16,8 @@
 #include <clang/Basic/Specifiers.h>
 #include <llvm/Support/Casting.h>
 
+#include <algorithm>
+
 using namespace clang;
 
 /// Returns whether the class has non-private copy-ctor or copy-assign
@@ -83,6 +85,9 @@ std::vector<clang::FixItHint> CopyablePolymorphic::fixits(clang::CXXRecordDecl *
     }
 
     const StringRef className = clazy::name(record);
+    if (className.empty()) {
+        return {}; // There's nothing to give to Q_DISABLE_COPY
+    }
 
     // Insert Q_DISABLE_COPY(classname) in the private section if one exists,
     // otherwise at the end of the class declaration
@@ -96,11 +101,14 @@ std::vector<clang::FixItHint> CopyablePolymorphic::fixits(clang::CXXRecordDecl *
         result.push_back(clazy::createInsertion(pos, std::string("\tQ_DISABLE_COPY(") + className.data() + std::string(")\n")));
     }
 
-    // If the class has a default constructor, then we need to readd it,
+    // If the class has an implicit default constructor, then we need to readd it,
     // as the disabled copy constructor removes it.
     // Add it in the public section if one exists, otherwise add a
     // public section at the top of the class declaration.
-    if (record->hasDefaultConstructor()) {
+    const bool declaresDefaultConstructor = std::ranges::any_of(record->ctors(), [](const CXXConstructorDecl *ctor) {
+        return ctor->isDefaultConstructor() && !ctor->isImplicit();
+    });
+    if (record->hasDefaultConstructor() && !declaresDefaultConstructor) {
         pos = m_context->accessSpecifierManager->firstLocationOfSection(clang::AccessSpecifier::AS_public, record);
         if (pos.isInvalid()) {
             pos = record->getBraceRange().getBegin().getLocWithOffset(1);
-- 
2.43.0


From a129223bae0bb2c5a21c12f00ba0d312164992c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 48/56] fix: function-args-by-value: keep default arguments as
 they are, leave arrays and function pointers

---
 src/checks/level2/function-args-by-value.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/checks/level2/function-args-by-value.cpp b/src/checks/level2/function-args-by-value.cpp
index cd79933..5d13b4d 100644
--- a/src/checks/level2/function-args-by-value.cpp
+++ b/src/checks/level2/function-args-by-value.cpp
@@ -137,7 +137,7 @@ void FunctionArgsByValue::processFunction(FunctionDecl *func)
         i++;
         const QualType paramQt = clazy::unrefQualType(param->getType());
         const Type *paramType = paramQt.getTypePtrOrNull();
-        if (!paramType || paramType->isIncompleteType() || paramType->isDependentType()) {
+        if (!paramType || paramType->isIncompleteType() || paramType->isDependentType() || paramType->isArrayType()) {
             continue;
         }
 
@@ -179,7 +179,8 @@ void FunctionArgsByValue::processFunction(FunctionDecl *func)
             std::vector<FixItHint> fixits;
             auto *method = dyn_cast<CXXMethodDecl>(func);
             const bool isVirtualMethod = method && method->isVirtual();
-            if (!isVirtualMethod || warnForOverriddenMethods) { // Don't try to fix virtual methods, as build can fail
+            const bool isDeclaratorSplit = paramType->isFunctionPointerType() || paramType->isMemberFunctionPointerType();
+            if (!isDeclaratorSplit && (!isVirtualMethod || warnForOverriddenMethods)) { // Don't try to fix virtual methods, as build can fail
                 for (auto *redecl : func->redecls()) { // Fix in both header and .cpp
                     auto *fdecl = dyn_cast<FunctionDecl>(redecl);
                     const ParmVarDecl *param = fdecl->getParamDecl(i);
@@ -208,13 +209,9 @@ FixItHint FunctionArgsByValue::fixit(FunctionDecl *func, const ParmVarDecl *para
     SourceLocation startLoc = param->getBeginLoc();
     SourceLocation endLoc = param->getEndLoc();
 
-    const int numRedeclarations = std::distance(func->redecls_begin(), func->redecls_end());
-    const bool definitionIsAlsoDeclaration = numRedeclarations == 1;
-    const bool isDeclarationButNotDefinition = !func->doesThisDeclarationHaveABody();
-
-    if (param->hasDefaultArg() && (isDeclarationButNotDefinition || definitionIsAlsoDeclaration)) {
-        endLoc = param->getDefaultArg()->getBeginLoc().getLocWithOffset(-1);
-        replacement += " =";
+    if (param->hasDefaultArg() && !param->hasInheritedDefaultArg()) {
+        // Leave the default argument, and the '=' in front of it, as it is
+        endLoc = param->getIdentifier() ? param->getLocation() : param->getTypeSourceInfo()->getTypeLoc().getEndLoc();
     }
 
     if (!startLoc.isValid() || !endLoc.isValid()) {
-- 
2.43.0


From 0ee0a7bfa07b7d1878e10a6dc0c7b02aac367fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 49/56] fix: modernize-overloaded-connects: replace all of
 qOverload, however it is written

---
 .../level1/modernize-overloaded-connects.cpp  | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/checks/level1/modernize-overloaded-connects.cpp b/src/checks/level1/modernize-overloaded-connects.cpp
index fe87528..fd1f256 100644
--- a/src/checks/level1/modernize-overloaded-connects.cpp
+++ b/src/checks/level1/modernize-overloaded-connects.cpp
@@ -65,7 +65,7 @@ void ModernizeOverloadedConnects::checkConnectArg(CallExpr *call, int numArgToCh
         if (auto expr = dyn_cast<DeclRefExpr>(operatorCall->getArg(0)->IgnoreImplicit())) {
             if (expr->getType().getUnqualifiedType().getAsString().starts_with("QOverload")) {
                 std::vector<FixItHint> fixits{
-                    FixItHint::CreateRemoval(SourceRange(operatorCall->getBeginLoc(), operatorCall->getArg(1)->getBeginLoc().getLocWithOffset(-1))),
+                    FixItHint::CreateRemoval(CharSourceRange::getCharRange(operatorCall->getBeginLoc(), operatorCall->getArg(1)->getBeginLoc())),
                     FixItHint::CreateRemoval(SourceRange(operatorCall->getEndLoc(), operatorCall->getEndLoc())),
                 };
                 maybeEmitWarn(call->getBeginLoc(), "Unneeded qOverload", fixits);
@@ -76,15 +76,19 @@ void ModernizeOverloadedConnects::checkConnectArg(CallExpr *call, int numArgToCh
         if (auto calleeDecl = dyn_cast_or_null<CXXMethodDecl>(callExpr->getDirectCallee())) {
             if (calleeDecl->getNameAsString() == "of" && calleeDecl->getParent()->getNameAsString() == "QNonConstOverload") {
                 if (isMethodOverloaded) {
-                    std::vector<FixItHint> fixits{
-                        FixItHint::CreateReplacement(SourceRange(callExpr->getBeginLoc(), callExpr->getBeginLoc().getLocWithOffset(1)), "qOverload"),
-                        FixItHint::CreateRemoval(SourceRange(callExpr->getArg(0)->getBeginLoc().getLocWithOffset(-5), // Remove ::of part from source code
-                                                             callExpr->getArg(0)->getBeginLoc().getLocWithOffset(-2))),
-                    };
+                    std::vector<FixItHint> fixits;
+                    auto *calleeRef = dyn_cast<DeclRefExpr>(callExpr->getCallee()->IgnoreImplicit());
+                    if (calleeRef && calleeRef->hasQualifier()) {
+                        if (auto overload = calleeRef->getQualifierLoc().getTypeLoc().getAs<TemplateSpecializationTypeLoc>()) {
+                            const SourceLocation afterArguments = overload.getRAngleLoc().getLocWithOffset(1);
+                            fixits.push_back(FixItHint::CreateReplacement(SourceRange(callExpr->getBeginLoc(), overload.getTemplateNameLoc()), "qOverload"));
+                            fixits.push_back(FixItHint::CreateRemoval(SourceRange(afterArguments, calleeRef->getLocation()))); // Remove ::of
+                        }
+                    }
                     maybeEmitWarn(call->getBeginLoc(), "Use more concise qOverload", fixits);
                 } else {
                     std::vector<FixItHint> fixits{
-                        FixItHint::CreateRemoval(SourceRange(callExpr->getBeginLoc(), callExpr->getArg(0)->getBeginLoc().getLocWithOffset(-1))),
+                        FixItHint::CreateRemoval(CharSourceRange::getCharRange(callExpr->getBeginLoc(), callExpr->getArg(0)->getBeginLoc())),
                         FixItHint::CreateRemoval(SourceRange(callExpr->getEndLoc(), callExpr->getEndLoc())),
                     };
                     maybeEmitWarn(call->getBeginLoc(), "Unneeded QOverload::of", fixits);
@@ -103,13 +107,14 @@ void ModernizeOverloadedConnects::checkConnectArg(CallExpr *call, int numArgToCh
                 signalOverloadParams += p->getType().getAsString();
             }
             std::vector<FixItHint> fixits{
-                FixItHint::CreateReplacement(SourceRange(castExpr->getBeginLoc(), subExpr->getBeginLoc().getLocWithOffset(-2)),
-                                             "qOverload<" + signalOverloadParams + ">"),
+                FixItHint::CreateReplacement(
+                    CharSourceRange::getCharRange(castExpr->getBeginLoc(), castExpr->getAngleBrackets().getEnd().getLocWithOffset(1)),
+                    "qOverload<" + signalOverloadParams + ">"),
             };
             maybeEmitWarn(call->getBeginLoc(), "Unneeded QOverload::of", fixits);
         } else {
             std::vector<FixItHint> fixits{
-                FixItHint::CreateRemoval(SourceRange(castExpr->getBeginLoc(), subExpr->getBeginLoc().getLocWithOffset(-1))),
+                FixItHint::CreateRemoval(CharSourceRange::getCharRange(castExpr->getBeginLoc(), subExpr->getBeginLoc())),
                 FixItHint::CreateRemoval(SourceRange(castExpr->getEndLoc(), castExpr->getEndLoc())),
             };
             maybeEmitWarn(call->getBeginLoc(), "Unneeded QOverload::of", fixits);
-- 
2.43.0


From 511cce04618c5473f78e632278785d74c186dc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 50/56] fix: qstring-ref: no fix-it if the call is only a part
 of the argument

---
 src/checks/manuallevel/qstring-ref.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/qstring-ref.cpp b/src/checks/manuallevel/qstring-ref.cpp
index 3d98f97..fc45c6e 100644
--- a/src/checks/manuallevel/qstring-ref.cpp
+++ b/src/checks/manuallevel/qstring-ref.cpp
@@ -206,7 +206,9 @@ bool StringRefCandidates::processCase2(CallExpr *call)
         return false;
     }
 
-    const std::vector<FixItHint> fixits = fixit(innerMemberCall);
+    // In something bigger, like the branch of a conditional operator, the type of innerMemberCall matters
+    const bool isWholeArgument = temp->getSubExpr()->IgnoreUnlessSpelledInSource() == innerMemberCall;
+    const std::vector<FixItHint> fixits = isWholeArgument ? fixit(innerMemberCall) : std::vector<FixItHint>();
 
     emitWarning(call->getSourceRange().getBegin(), "Use " + innerMethod->getNameAsString() + "Ref() instead", fixits);
     return true;
-- 
2.43.0


From f05f9667c0d70a8520ef197e3f7555d9f9e76c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 51/56] fix: fully-qualified-moc-types: replace all of the type
 if const is on its right

---
 .../level0/fully-qualified-moc-types.cpp      | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/checks/level0/fully-qualified-moc-types.cpp b/src/checks/level0/fully-qualified-moc-types.cpp
index c2b038e..0ed12d6 100644
--- a/src/checks/level0/fully-qualified-moc-types.cpp
+++ b/src/checks/level0/fully-qualified-moc-types.cpp
@@ -78,6 +78,19 @@ static std::string normalizeType(const std::string &type)
     return out;
 }
 
+// The range of the type as it's written, without the & or * and the qualifiers around it
+static SourceRange writtenTypeRange(TypeLoc loc)
+{
+    loc = loc.getUnqualifiedLoc();
+    if (auto ptrLoc = loc.getAs<PointerTypeLoc>()) {
+        loc = ptrLoc.getPointeeLoc();
+    } else if (auto refLoc = loc.getAs<ReferenceTypeLoc>()) {
+        loc = refLoc.getPointeeLoc();
+    }
+
+    return loc.getUnqualifiedLoc().getSourceRange();
+}
+
 std::string FullyQualifiedMocTypes::writtenType(const ParmVarDecl *param) const
 {
     TypeSourceInfo *TSI = param->getTypeSourceInfo();
@@ -130,11 +143,7 @@ void FullyQualifiedMocTypes::VisitDecl(clang::Decl *decl)
         const std::string typeName = writtenType(param);
         std::string qualifiedTypeName;
         if (!typeIsFullyQualified(t, /*by-ref*/ qualifiedTypeName, typeName)) {
-            SourceRange fixitRange = param->getTypeSourceInfo()->getTypeLoc().getSourceRange();
-            // We don't want to include the & or * characters for the fixit range
-            if (param->getType()->isReferenceType() || param->getType()->isPointerType()) {
-                fixitRange = SourceRange(fixitRange.getBegin(), fixitRange.getEnd().getLocWithOffset(-1));
-            }
+            const SourceRange fixitRange = writtenTypeRange(param->getTypeSourceInfo()->getTypeLoc());
             std::vector fixits{FixItHint::CreateReplacement(fixitRange, qualifiedTypeName)};
             std::string warning = accessSpecifierManager->qtAccessSpecifierTypeStr(qst).str() + " arguments need to be fully-qualified";
             emitWarning(param->getTypeSpecStartLoc(), warning, fixits);
-- 
2.43.0


From 6efad96f335e7c40f274b7fb4d07bc6aee355681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 52/56] fix: qstring-allocations: fix-its for what is compared
 with "", conditional operands and prefixed literals

---
 src/FixItUtils.cpp                        |  4 ++++
 src/checks/level2/qstring-allocations.cpp | 26 +++++++++++++++++++----
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/FixItUtils.cpp b/src/FixItUtils.cpp
index 390fb9f..801c37b 100644
--- a/src/FixItUtils.cpp
+++ b/src/FixItUtils.cpp
@@ -199,6 +199,10 @@ FixItHint clazy::fixItReplaceWordWithWord(const ASTContext *context, clang::Stmt
         }
     }
 
+    if (rangeStart.isFileID() && Lexer::getSourceText(CharSourceRange::getTokenRange(rangeStart, rangeStart), sm, context->getLangOpts()) == "::") {
+        return {}; // ::QString isn't a single word
+    }
+
     return FixItHint::CreateReplacement(SourceRange(rangeStart, rangeEnd), replacement);
 }
 
diff --git a/src/checks/level2/qstring-allocations.cpp b/src/checks/level2/qstring-allocations.cpp
index 5f721aa..d06b693 100644
--- a/src/checks/level2/qstring-allocations.cpp
+++ b/src/checks/level2/qstring-allocations.cpp
@@ -32,6 +32,7 @@
 #include <llvm/Support/Casting.h>
 #include <llvm/Support/raw_ostream.h>
 
+#include <algorithm>
 #include <cassert>
 #include <utility>
 
@@ -526,29 +527,46 @@ std::vector<FixItHint> QStringAllocations::fixItRawLiteral(StringLiteral *lt, co
         return {};
     }
 
+    if (!lt->isOrdinary()) {
+        return {}; // There's no QLatin1String(u8"foo")
+    }
+
+    if (operatorCall && std::ranges::none_of(operatorCall->arguments(), [lt](Expr *arg) {
+            return arg->IgnoreParenImpCasts()->IgnoreImplicit() == lt;
+        })) {
+        return {}; // The literal is only a part of the operand, like in a conditional operator
+    }
+
     SourceLocation start = lt->getBeginLoc();
     if (!start.isMacroID()) {
         if (Utils::literalContainsEscapedBytes(lt, sm(), lo())) {
             return {};
         }
 
+        // Whether ".isEmpty()" can be written after what is on the left
+        const Expr *left = operatorCall && operatorCall->getNumArgs() == 2 ? operatorCall->getArg(0)->IgnoreUnlessSpelledInSource() : nullptr;
+        const auto *leftCall = dyn_cast_or_null<CXXOperatorCallExpr>(left);
+        const bool isPostfixOperand = left && left->IgnoreParens() != lt
+            && (leftCall ? leftCall->getOperator() == OO_Subscript || leftCall->getOperator() == OO_Call
+                         : isa<ParenExpr, DeclRefExpr, MemberExpr, CallExpr, ArraySubscriptExpr, CXXFunctionalCastExpr, CXXTemporaryObjectExpr>(left));
+
         // Turn str == "" into str.isEmpty()
-        if (operatorCall && operatorCall->getOperator() == OO_EqualEqual && lt->getLength() == 0) {
+        if (isPostfixOperand && operatorCall->getOperator() == OO_EqualEqual && lt->getLength() == 0) {
             // For some reason this returns the same as getStartLoc
             // SourceLocation start = operatorCall->getArg(0)->getEndLoc();
             // So instead, we have to start from the "==" sign and eat whitespace to the left
             SourceLocation start = eatLeadingWhitespace(operatorCall->getBeginLoc(), operatorCall->getExprLoc(), sm(), lo());
-            fixits.push_back(clazy::createReplacement({start, range.getEnd()}, ".isEmpty()"));
+            fixits.push_back(clazy::createReplacement({start, lt->getEndLoc()}, ".isEmpty()"));
             return fixits;
         }
 
         // Turn str != "" into !str.isEmpty()
-        if (operatorCall && operatorCall->getOperator() == OO_ExclaimEqual && lt->getLength() == 0) {
+        if (isPostfixOperand && operatorCall->getOperator() == OO_ExclaimEqual && lt->getLength() == 0) {
             // For some reason this returns the same as getStartLoc
             // SourceLocation start = operatorCall->getArg(0)->getEndLoc();
             // So instead, we have to start from the "==" sign and eat whitespace to the left
             SourceLocation start = eatLeadingWhitespace(operatorCall->getBeginLoc(), operatorCall->getExprLoc(), sm(), lo());
-            fixits.push_back(clazy::createReplacement({start, range.getEnd()}, ".isEmpty()"));
+            fixits.push_back(clazy::createReplacement({start, lt->getEndLoc()}, ".isEmpty()"));
             fixits.push_back(clazy::createInsertion(operatorCall->getBeginLoc(), "!"));
             return fixits;
         }
-- 
2.43.0


From 9e1f2fbd2bec4411c571b0b514ec535449737302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 53/56] fix: modernize-list-initialization: only propose what
 gives the same list

---
 .../modernize-list-initialization.cpp         | 81 ++++++++++++++++---
 .../modernize-list-initialization.h           |  2 +-
 2 files changed, 72 insertions(+), 11 deletions(-)

diff --git a/src/checks/manuallevel/modernize-list-initialization.cpp b/src/checks/manuallevel/modernize-list-initialization.cpp
index 234707e..329b9af 100644
--- a/src/checks/manuallevel/modernize-list-initialization.cpp
+++ b/src/checks/manuallevel/modernize-list-initialization.cpp
@@ -14,6 +14,47 @@
 
 using namespace clang;
 
+// Returns whether the list's type is known without the expression, so that just {...} can be written for it
+static bool isTypeKnownFromContext(ParentMap *map, const FunctionDecl *function, Stmt *stmt)
+{
+    Stmt *child = stmt;
+    Stmt *parent = map->getParent(child);
+    while (parent) {
+        auto *construct = dyn_cast<CXXConstructExpr>(parent);
+        const bool isCopy = construct && !isa<CXXTemporaryObjectExpr>(construct) && construct->getConstructor()->isCopyOrMoveConstructor();
+        if (!isCopy && !isa<ImplicitCastExpr, MaterializeTemporaryExpr, CXXBindTemporaryExpr, ExprWithCleanups>(parent)) {
+            break;
+        }
+        child = parent;
+        parent = map->getParent(child);
+    }
+
+    if (auto *call = dyn_cast_or_null<CallExpr>(parent)) {
+        const FunctionDecl *callee = call->getDirectCallee();
+        return callee && !isa<CXXOperatorCallExpr>(call) && !callee->isTemplateInstantiation();
+    }
+
+    if (auto *ret = dyn_cast_or_null<ReturnStmt>(parent)) {
+        for (Stmt *s = map->getParent(ret); s; s = map->getParent(s)) {
+            if (auto *lambda = dyn_cast<LambdaExpr>(s)) {
+                return lambda->hasExplicitResultType();
+            }
+        }
+        return function && !function->getDeclaredReturnType()->getContainedDeducedType();
+    }
+
+    return false;
+}
+
+// Returns whether the value changes its type in a way that isn't allowed between the braces of an initializer list
+static bool isNarrowed(const CXXOperatorCallExpr *operatorCall, const ASTContext &context)
+{
+    const Expr *value = operatorCall->getArg(1);
+    const QualType from = value->IgnoreUnlessSpelledInSource()->getType();
+    const QualType to = operatorCall->getDirectCallee()->parameters().back()->getType().getNonReferenceType();
+    return from->isArithmeticType() && to->isArithmeticType() && !context.hasSameUnqualifiedType(from, to) && !value->isEvaluatable(context);
+}
+
 void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
 {
     if (auto expr = dyn_cast<DeclStmt>(stmt); expr && expr->isSingleDecl()) {
@@ -31,7 +72,8 @@ void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
                         auto operatorCall = dyn_cast<CXXOperatorCallExpr>(exprArg);
                         if (operatorCall && operatorCall->getOperator() == OverloadedOperatorKind::OO_LessLess) {
                             SourceLocation afterName = Lexer::getLocForEndOfToken(varDecl->getLocation(), 0, sm(), lo());
-                            checkOperatorCallListInitialization(SourceRange(afterName, initExpr->getEndLoc()), operatorCall);
+                            const bool canFix = !varDecl->getType()->getContainedDeducedType();
+                            checkOperatorCallListInitialization(SourceRange(afterName, initExpr->getEndLoc()), operatorCall, canFix);
                             m_alreadyCheckedOperatorCalls.push_back(operatorCall);
                         }
                     }
@@ -53,16 +95,32 @@ void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
         if (!isa<ImplicitCastExpr>(parent)) {
             return;
         }
-        checkOperatorCallListInitialization({parent->getBeginLoc(), topLevelOperatorCall->getEndLoc()}, topLevelOperatorCall);
+        checkOperatorCallListInitialization({parent->getBeginLoc(), topLevelOperatorCall->getEndLoc()},
+                                            topLevelOperatorCall,
+                                            isTypeKnownFromContext(m_context->parentMap, m_context->lastFunctionDecl, parent));
     }
 }
 
-void ModernizeListInitialization::checkOperatorCallListInitialization(clang::SourceRange fixitSourceRange, clang::CXXOperatorCallExpr *operatorCall)
+void ModernizeListInitialization::checkOperatorCallListInitialization(clang::SourceRange fixitSourceRange,
+                                                                     clang::CXXOperatorCallExpr *operatorCall,
+                                                                     bool canFix)
 {
     std::vector<std::string> replacementTexts;
     auto opCall = operatorCall;
     while (opCall && opCall->getNumArgs() > 0) {
         auto firstArg = opCall->getArg(1);
+        if (!opCall->getDirectCallee() || opCall->getNumArgs() != 2) {
+            return;
+        }
+        const QualType elementType = opCall->getDirectCallee()->parameters().back()->getType().getNonReferenceType();
+        const CXXRecordDecl *elementRecord = elementType->getAsCXXRecordDecl();
+        const CXXRecordDecl *listRecord = opCall->getType()->getAsCXXRecordDecl();
+        if (elementRecord && listRecord && elementRecord->hasDefinition() && listRecord->hasDefinition()
+            && (elementRecord->getCanonicalDecl() == listRecord->getCanonicalDecl() || listRecord->isDerivedFrom(elementRecord)
+                || elementRecord->isDerivedFrom(listRecord))) {
+            return; // abort since a whole list is appended
+        }
+        canFix = canFix && !isNarrowed(opCall, *astContext());
         std::string sourceText = getSourceText(firstArg).str();
 #if LLVM_VERSION_MAJOR < 20
         auto token = Lexer::findNextToken(firstArg->getEndLoc(), sm(), lo());
@@ -81,14 +139,14 @@ void ModernizeListInitialization::checkOperatorCallListInitialization(clang::Sou
         }
         replacementTexts.push_back(sourceText);
 
-        if (auto *materializeTemp = dyn_cast<MaterializeTemporaryExpr>(opCall->getArg(0))) {
-            if (auto *bindTemp = dyn_cast<CXXBindTemporaryExpr>(materializeTemp->getSubExpr())) {
-                if (isa<CallExpr>(bindTemp->getSubExpr())) {
-                    return; // abort since we have a function that produced the initial list
-                }
+        const Expr *list = opCall->getArg(0);
+        opCall = dyn_cast<CXXOperatorCallExpr>(opCall->getArg(0)->IgnoreImplicit());
+        if (!opCall) {
+            auto *construct = dyn_cast<CXXConstructExpr>(list->IgnoreUnlessSpelledInSource());
+            if (!construct || construct->getConstructor()->getNumParams() > 0) {
+                return; // abort since the initial list isn't an empty one created here
             }
         }
-        opCall = dyn_cast<CXXOperatorCallExpr>(opCall->getArg(0));
     }
 
     if (replacementTexts.empty()) {
@@ -117,6 +175,9 @@ void ModernizeListInitialization::checkOperatorCallListInitialization(clang::Sou
         replacementText[replacementText.length() - 1] = '}';
     }
 
-    std::vector<FixItHint> fixes{FixItHint::CreateReplacement(fixitSourceRange, replacementText)};
+    std::vector<FixItHint> fixes;
+    if (canFix) {
+        fixes.push_back(FixItHint::CreateReplacement(fixitSourceRange, replacementText));
+    }
     emitWarning(fixitSourceRange.getBegin(), "Use initializer-list syntax", fixes);
 }
diff --git a/src/checks/manuallevel/modernize-list-initialization.h b/src/checks/manuallevel/modernize-list-initialization.h
index 54174ef..8995c01 100644
--- a/src/checks/manuallevel/modernize-list-initialization.h
+++ b/src/checks/manuallevel/modernize-list-initialization.h
@@ -18,7 +18,7 @@ public:
     void VisitStmt(clang::Stmt *) override;
 
 private:
-    void checkOperatorCallListInitialization(clang::SourceRange fixitSourceRange, clang::CXXOperatorCallExpr *operatorCall);
+    void checkOperatorCallListInitialization(clang::SourceRange fixitSourceRange, clang::CXXOperatorCallExpr *operatorCall, bool canFix);
     std::vector<clang::CallExpr *> m_alreadyCheckedOperatorCalls;
 };
 
-- 
2.43.0


From 7c5246ed077587b97ed9d00e2f56992d9510a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 54/56] fix: don't propose const references for what is changed
 through a pointer or reference

---
 src/TypeUtils.cpp |  2 +-
 src/Utils.cpp     | 56 +++++++++++++++++++++++++++++++++++++++++++++++
 src/Utils.h       |  4 ++++
 3 files changed, 61 insertions(+), 1 deletion(-)

diff --git a/src/TypeUtils.cpp b/src/TypeUtils.cpp
index cff4f49..58d4195 100644
--- a/src/TypeUtils.cpp
+++ b/src/TypeUtils.cpp
@@ -55,7 +55,7 @@ bool clazy::classifyQualType(const ClazyContext *context, clang::QualType qualTy
         classif.passSmallTrivialByValue = true;
     } else if (varDecl && !classif.isConst && !classif.isReference && (classif.isBig || classif.isNonTriviallyCopyable)) {
         if (body
-            && (Utils::containsNonConstMemberCall(context->parentMap, body, varDecl)
+            && (Utils::containsNonConstMemberCall(context->parentMap, body, varDecl) || Utils::isBoundToNonConst(body, varDecl)
                 || Utils::isPassedToFunction(StmtBodyRange(body), varDecl, /*byrefonly=*/true))) {
             return true;
         }
diff --git a/src/Utils.cpp b/src/Utils.cpp
index 82c73f4..0749cb4 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -34,6 +34,7 @@
 
 #include <cctype>
 #include <iterator>
+#include <set>
 #include <utility>
 
 namespace clang
@@ -321,6 +322,61 @@ bool Utils::containsNonConstMemberCall(clang::ParentMap * /*map*/, Stmt *body, c
     return false;
 }
 
+bool Utils::isBoundToNonConst(Stmt *body, const VarDecl *varDecl)
+{
+    auto isVar = [varDecl](Expr *expr) {
+        auto *ref = expr ? dyn_cast<DeclRefExpr>(expr->IgnoreParens()) : nullptr;
+        return ref && ref->getDecl() == varDecl;
+    };
+
+    // The pointers that are converted right away to pointers to const
+    std::vector<ImplicitCastExpr *> casts;
+    clazy::getChilds<ImplicitCastExpr>(body, casts);
+    std::set<const Expr *> constPointers;
+    for (auto *cast : casts) {
+        if (cast->getType()->isPointerType() && cast->getType()->getPointeeType().isConstQualified()) {
+            constPointers.insert(cast->getSubExpr());
+        }
+    }
+
+    std::vector<UnaryOperator *> unaryOperators;
+    clazy::getChilds<UnaryOperator>(body, unaryOperators);
+    for (auto *op : unaryOperators) {
+        if (op->getOpcode() == UO_AddrOf && isVar(op->getSubExpr()) && constPointers.count(op) == 0
+            && !op->getSubExpr()->getType().isConstQualified()) {
+            return true;
+        }
+    }
+
+    // The hidden variable of a range-for takes the constness of what it's initialized with
+    std::vector<CXXForRangeStmt *> rangeLoops;
+    clazy::getChilds<CXXForRangeStmt>(body, rangeLoops);
+    std::set<const Stmt *> constRanges;
+    for (auto *rangeLoop : rangeLoops) {
+        const QualType element = rangeLoop->getLoopVariable() ? rangeLoop->getLoopVariable()->getType() : QualType();
+        if (element.isNull() || !element->isReferenceType() || element.getNonReferenceType().isConstQualified()) {
+            constRanges.insert(rangeLoop->getRangeStmt());
+        }
+    }
+
+    std::vector<DeclStmt *> declStmts;
+    clazy::getChilds<DeclStmt>(body, declStmts);
+    for (auto *declStmt : declStmts) {
+        for (auto *decl : declStmt->decls()) {
+            auto *reference = dyn_cast<VarDecl>(decl);
+            if (!reference || !reference->getType()->isReferenceType() || reference->getType().getNonReferenceType().isConstQualified()
+                || !isVar(reference->getInit())) {
+                continue;
+            }
+            if (constRanges.count(declStmt) == 0) {
+                return true;
+            }
+        }
+    }
+
+    return false;
+}
+
 template<class T>
 static bool isArgOfFunc(T expr, FunctionDecl *fDecl, const VarDecl *varDecl, bool byRefOrPtrOnly)
 {
diff --git a/src/Utils.h b/src/Utils.h
index a248d1d..297754a 100644
--- a/src/Utils.h
+++ b/src/Utils.h
@@ -102,6 +102,10 @@ clang::CXXRecordDecl *isMemberVariable(clang::ValueDecl *);
 // while (bar) { foo.setValue(); // non-const call }
 bool containsNonConstMemberCall(clang::ParentMap *map, clang::Stmt *body, const clang::VarDecl *varDecl);
 
+// Returns true if there's a pointer or reference in body through which varDecl can be changed
+// Example: Foo *ptr = &our_var; Foo &ref = our_var;
+bool isBoundToNonConst(clang::Stmt *body, const clang::VarDecl *varDecl);
+
 // Returns true if there's an assignment to varDecl in body
 // Example: our_var = something_else
 bool isAssignedFrom(clang::Stmt *body, const clang::VarDecl *varDecl);
-- 
2.43.0


From cd663c132128aac3ad2d1688c31ee64e1158b466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 55/56] fix: missing-qobject-macro: members of structs stay
 public, local classes can't have the macro

---
 src/checks/level2/missing-qobject-macro.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/checks/level2/missing-qobject-macro.cpp b/src/checks/level2/missing-qobject-macro.cpp
index 0c67f7c..45722e5 100644
--- a/src/checks/level2/missing-qobject-macro.cpp
+++ b/src/checks/level2/missing-qobject-macro.cpp
@@ -45,6 +45,10 @@ void MissingQObjectMacro::VisitDecl(clang::Decl *decl)
         return;
     }
 
+    if (record->isLocalClass()) { // They can't have the static data member that Q_OBJECT declares
+        return;
+    }
+
     if (m_context->usingPreCompiledHeaders()) {
         return;
     }
@@ -69,7 +73,8 @@ void MissingQObjectMacro::VisitDecl(clang::Decl *decl)
 
     std::vector<FixItHint> fixits;
     const SourceLocation pos = record->getBraceRange().getBegin().getLocWithOffset(1);
-    fixits.push_back(clazy::createInsertion(pos, "\n\tQ_OBJECT"));
+    // Q_OBJECT ends in a private section, the members of a struct have to stay public
+    fixits.push_back(clazy::createInsertion(pos, record->isStruct() ? "\n\tQ_OBJECT\npublic:" : "\n\tQ_OBJECT"));
 
     const std::string fileName = sm().getFilename(startLoc).str();
     if (clazy::endsWith(fileName, ".cpp")) {
-- 
2.43.0


From 19b70c8ff501eff54b1400de4baf288139240e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 56/56] fix: missing-qobject-macro: don't include the moc file
 again

---
 src/PreProcessorVisitor.cpp | 12 +++++++-----
 src/PreProcessorVisitor.h   |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/PreProcessorVisitor.cpp b/src/PreProcessorVisitor.cpp
index 32bc1ec..6bdda7b 100644
--- a/src/PreProcessorVisitor.cpp
+++ b/src/PreProcessorVisitor.cpp
@@ -70,10 +70,12 @@ bool PreProcessorVisitor::hasInclude(const std::string &fileName, bool IsAngled)
 
 SourceLocation PreProcessorVisitor::endOfIncludeSection() const
 {
-    if (m_includeInfo.empty()) {
-        return {};
+    for (auto it = m_includeInfo.crbegin(); it != m_includeInfo.crend(); ++it) {
+        if (!clazy::endsWith(it->fileName, ".moc")) { // Those are at the end of the file
+            return it->filenameRange.getEnd();
+        }
     }
-    return m_includeInfo.back().filenameRange.getEnd();
+    return {};
 }
 
 std::string PreProcessorVisitor::getTokenSpelling(const MacroDefinition &def) const
@@ -185,7 +187,7 @@ void PreProcessorVisitor::InclusionDirective(clang::SourceLocation,
                                              bool,
                                              clang::SrcMgr::CharacteristicKind)
 {
-    if (m_pp.isInPrimaryFile() && !clazy::endsWith(FileName.str(), ".moc")) {
-        m_includeInfo.push_back(IncludeInfo{FileName, IsAngled, FilenameRange});
+    if (m_pp.isInPrimaryFile()) {
+        m_includeInfo.push_back(IncludeInfo{FileName.str(), IsAngled, FilenameRange});
     }
 }
diff --git a/src/PreProcessorVisitor.h b/src/PreProcessorVisitor.h
index 0fb87ba..21fe809 100644
--- a/src/PreProcessorVisitor.h
+++ b/src/PreProcessorVisitor.h
@@ -88,7 +88,7 @@ private:
     const clang::Preprocessor &m_pp;
 
     struct IncludeInfo {
-        clang::StringRef fileName;
+        std::string fileName;
         bool IsAngled;
         clang::CharSourceRange filenameRange;
     };
-- 
2.43.0


From f0065a097f4ba3e36c7e2702153c1c9c7fbd518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 01/55] fix: check the order of the calls by default, as
 documented

---
 src/easyMockFramework/src/easyMock.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockFramework/src/easyMock.cpp b/src/easyMockFramework/src/easyMock.cpp
index 3a751e4..b78b0f3 100644
--- a/src/easyMockFramework/src/easyMock.cpp
+++ b/src/easyMockFramework/src/easyMock.cpp
@@ -44,7 +44,7 @@ class EasyMock
 public:
 
   EasyMock() :
-  m_checkCallsOrder(false)
+  m_checkCallsOrder(true)
 #if defined(BACKTRACE_SUPPORT)
   , m_printCallStack(true)
 #endif
-- 
2.43.0


From c7c0fc6b207daf4f56c28a373033a80df8fa2726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 02/55] fix: print 128-bit values with all their digits in
 matcher messages

---
 src/easyMockFramework/src/easyMock_matcher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockFramework/src/easyMock_matcher.cpp b/src/easyMockFramework/src/easyMock_matcher.cpp
index ec659c2..622dd78 100644
--- a/src/easyMockFramework/src/easyMock_matcher.cpp
+++ b/src/easyMockFramework/src/easyMock_matcher.cpp
@@ -68,7 +68,7 @@ extern "C" int cmp_int128(const void *currentCall_ptr, const void *expectedCall_
   uint64_t highDigitCurrent = currentCall_val >> 64;
   uint64_t highDigitExpected = expectedCall_val >> 64;
   std::snprintf(errorMessage, EASYMOCK_MAX_CMP_ERR,
-  "Parameter '%s' has value '%#" PRIx64 "%" PRIx64 "', was expecting '%#" PRIx64 "%" PRIx64 "'",
+  "Parameter '%s' has value '0x%" PRIx64 "%016" PRIx64 "', was expecting '0x%" PRIx64 "%016" PRIx64 "'",
         paramName, highDigitCurrent, lowDigitCurrent, highDigitExpected, lowDigitExpected);
   return -1;
 }
@@ -85,7 +85,7 @@ extern "C" int cmp_uint128(const void *currentCall_ptr, const void *expectedCall
   uint64_t highDigitCurrent = currentCall_val >> 64;
   uint64_t highDigitExpected = expectedCall_val >> 64;
   std::snprintf(errorMessage, EASYMOCK_MAX_CMP_ERR,
-  "Parameter '%s' has value '%#" PRIx64 "%" PRIx64 "', was expecting '%#" PRIx64 "%" PRIx64 "'",
+  "Parameter '%s' has value '0x%" PRIx64 "%016" PRIx64 "', was expecting '0x%" PRIx64 "%016" PRIx64 "'",
         paramName, highDigitCurrent, lowDigitCurrent, highDigitExpected, lowDigitExpected);
   return -1;
 }
-- 
2.43.0


From c25a87c4ce772e71898855bf80e7f8561ef4af6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 03/55] fix: take relative -i and -o paths from the directory
 given to --cwd, as documented

---
 .../src/CmdLineParser/CmdLineParser.cpp       | 38 +++++++++++--------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
index f6e7819..4501a44 100644
--- a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
+++ b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
@@ -32,6 +32,8 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
   opt.m_generateIncludedFunctions = false;
   opt.m_mockCpp = false;
   opt.m_ignoreParserError = false;
+  bool inputHeaderGiven = false;
+  bool outputDirGiven = false;
 
   int argIdx;
   for(argIdx = 1; argv[argIdx] != nullptr && argIdx < argc; argIdx++)
@@ -39,7 +41,7 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
     const std::string currentParam(argv[argIdx]);
     if(currentParam == g_inputHeaderParam && hasOneMoreArgument(argIdx, argc))
     {
-      if(!opt.m_inputHeaderFile.empty())
+      if(inputHeaderGiven)
       {
         opt.m_errorMessage = g_minusIParameterGivenTwice;
         return opt;
@@ -51,18 +53,13 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
       }
       else
       {
-        if(!fs::is_regular_file(opt.m_inputHeaderFile))
-        {
-          opt.m_errorMessage = g_inputFileIsntRegular;
-          opt.m_inputHeaderFile.clear();
-          return opt;
-        }
+        inputHeaderGiven = true;
         argIdx++;
       }
     }
     else if(currentParam == g_outputDirParam && hasOneMoreArgument(argIdx, argc))
     {
-      if(!opt.m_outputDir.empty())
+      if(outputDirGiven)
       {
         opt.m_errorMessage = g_minusOParameterGivenTwice;
         return opt;
@@ -74,12 +71,7 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
       }
       else
       {
-        if(!fs::is_directory(opt.m_outputDir))
-        {
-          opt.m_errorMessage = g_outputDirIsntDir;
-          opt.m_outputDir.clear();
-          return opt;
-        }
+        outputDirGiven = true;
         argIdx++;
       }
     }
@@ -223,12 +215,26 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
       opt.m_extraArgs.emplace_back(std::string(argv[argIdx]));
     }
   }
-  if(opt.m_inputHeaderFile.empty())
+  //Relative paths are taken from the directory given to --cwd wherever it stands on the command line.
+  const fs::path workingDir(opt.m_changeWorkingDir);
+  if(inputHeaderGiven && !fs::is_regular_file(workingDir / opt.m_inputHeaderFile))
+  {
+    opt.m_errorMessage = g_inputFileIsntRegular;
+    opt.m_inputHeaderFile.clear();
+    return opt;
+  }
+  if(outputDirGiven && (opt.m_outputDir.empty() || !fs::is_directory(workingDir / opt.m_outputDir)))
+  {
+    opt.m_errorMessage = g_outputDirIsntDir;
+    opt.m_outputDir.clear();
+    return opt;
+  }
+  if(!inputHeaderGiven)
   {
     opt.m_errorMessage = g_errorInputMissing;
     return opt;
   }
-  if(opt.m_outputDir.empty())
+  if(!outputDirGiven)
   {
     opt.m_errorMessage = g_errorOutputMissing;
     return opt;
-- 
2.43.0


From 28b795c3e0a3fd681152fa059fa83e95edecda38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 04/55] fix: report unusable -i and -o paths instead of
 throwing

---
 src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
index 4501a44..ca67679 100644
--- a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
+++ b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
@@ -1,6 +1,7 @@
 #include "CmdLineParser.h"
 
 #include <string>
+#include <system_error>
 
 #if __has_include(<filesystem>)
 #include <filesystem>
@@ -217,13 +218,14 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
   }
   //Relative paths are taken from the directory given to --cwd wherever it stands on the command line.
   const fs::path workingDir(opt.m_changeWorkingDir);
-  if(inputHeaderGiven && !fs::is_regular_file(workingDir / opt.m_inputHeaderFile))
+  std::error_code ec;
+  if(inputHeaderGiven && !fs::is_regular_file(workingDir / opt.m_inputHeaderFile, ec))
   {
     opt.m_errorMessage = g_inputFileIsntRegular;
     opt.m_inputHeaderFile.clear();
     return opt;
   }
-  if(outputDirGiven && (opt.m_outputDir.empty() || !fs::is_directory(workingDir / opt.m_outputDir)))
+  if(outputDirGiven && (opt.m_outputDir.empty() || !fs::is_directory(workingDir / opt.m_outputDir, ec)))
   {
     opt.m_errorMessage = g_outputDirIsntDir;
     opt.m_outputDir.clear();
-- 
2.43.0


From 3a36ab07d8d3178bd84aa33b4368a5c001ec0e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 05/55] fix: don't read beyond the argument vector

---
 src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
index ca67679..7a391d4 100644
--- a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
+++ b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
@@ -37,7 +37,7 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
   bool outputDirGiven = false;
 
   int argIdx;
-  for(argIdx = 1; argv[argIdx] != nullptr && argIdx < argc; argIdx++)
+  for(argIdx = 1; argIdx < argc && argv[argIdx] != nullptr; argIdx++)
   {
     const std::string currentParam(argv[argIdx]);
     if(currentParam == g_inputHeaderParam && hasOneMoreArgument(argIdx, argc))
-- 
2.43.0


From 70b0946ebcbcc10acdc0ffaccfe392395e5c9c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 06/55] fix: don't pass a valueless -i or -o on to the parser

---
 .../src/CmdLineParser/CmdLineParser.cpp            | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
index 7a391d4..97e0648 100644
--- a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
+++ b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
@@ -40,13 +40,18 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
   for(argIdx = 1; argIdx < argc && argv[argIdx] != nullptr; argIdx++)
   {
     const std::string currentParam(argv[argIdx]);
-    if(currentParam == g_inputHeaderParam && hasOneMoreArgument(argIdx, argc))
+    if(currentParam == g_inputHeaderParam)
     {
       if(inputHeaderGiven)
       {
         opt.m_errorMessage = g_minusIParameterGivenTwice;
         return opt;
       }
+      if(!hasOneMoreArgument(argIdx, argc))
+      {
+        opt.m_errorMessage = g_errorInputMissing;
+        return opt;
+      }
       opt.m_inputHeaderFile = std::string(argv[argIdx+1]);
       if(opt.m_inputHeaderFile[0] == '-')
       {
@@ -58,13 +63,18 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
         argIdx++;
       }
     }
-    else if(currentParam == g_outputDirParam && hasOneMoreArgument(argIdx, argc))
+    else if(currentParam == g_outputDirParam)
     {
       if(outputDirGiven)
       {
         opt.m_errorMessage = g_minusOParameterGivenTwice;
         return opt;
       }
+      if(!hasOneMoreArgument(argIdx, argc))
+      {
+        opt.m_errorMessage = g_errorOutputMissing;
+        return opt;
+      }
       opt.m_outputDir = std::string(argv[argIdx+1]);
       if(opt.m_outputDir[0] == '-')
       {
-- 
2.43.0


From bd2d550cf5964805ea4bca11b5c4c3ce4da4f1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 07/55] fix: give a typedef of a typedef the raw hash of the
 underlying type

---
 src/easyMockGenerate/src/TypedefType.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/easyMockGenerate/src/TypedefType.cpp b/src/easyMockGenerate/src/TypedefType.cpp
index 7336801..0402792 100644
--- a/src/easyMockGenerate/src/TypedefType.cpp
+++ b/src/easyMockGenerate/src/TypedefType.cpp
@@ -29,7 +29,7 @@ std::size_t TypedefType::getHash() const noexcept
     return m_cachedHash;
   }
   std::size_t seed { TypeItf::getHash() };
-  boost::hash_combine(seed, getRawHash());
+  boost::hash_combine(seed, *m_typeeType);
 
   return seed;
 }
@@ -40,10 +40,7 @@ void TypedefType::cacheHash() noexcept
   m_cachedHash = 0;
   TypeItf::cacheHash();
   m_typeeType->cacheHash();
-  // Since getHash calls getRawHash:
-  // First cache the raw hash
   m_cachedRawHash = TypedefType::getRawHash();
-  // Then cache the hash
   m_cachedHash = TypedefType::getHash();
 }
 
@@ -53,7 +50,8 @@ std::size_t TypedefType::getRawHash() const noexcept
   {
     return m_cachedRawHash;
   }
-  return m_typeeType->getHash();
+  // The typee can be a typedef as well
+  return m_typeeType->getRawHash();
 }
 
 bool TypedefType::isEqual(const TypeItf &p_other) const
-- 
2.43.0


From 025e4b007c07bda6c82bbf741950dbccf4621ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 08/55] fix: give equal builtin types equal hashes however they
 were made unsigned

---
 src/easyMockGenerate/src/EasyMock_CType.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/easyMockGenerate/src/EasyMock_CType.cpp b/src/easyMockGenerate/src/EasyMock_CType.cpp
index 1d1d807..c64f9f1 100644
--- a/src/easyMockGenerate/src/EasyMock_CType.cpp
+++ b/src/easyMockGenerate/src/EasyMock_CType.cpp
@@ -141,7 +141,6 @@ std::size_t CType::getHash() const noexcept
   }
   std::size_t seed { TypeItf::getHash() };
   boost::hash_combine(seed, static_cast<uint32_t>(m_cType));
-  boost::hash_combine(seed, m_initAsNakedChar);
 
   return seed;
 }
-- 
2.43.0


From 6ccd62f9b50d2a9d6647b8c408073ecaa7661f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 09/55] fix: keep enumerators with negative, large or equal
 values

---
 src/easyMockGenerate/include/Enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/include/Enum.h b/src/easyMockGenerate/include/Enum.h
index 714131e..5608992 100644
--- a/src/easyMockGenerate/include/Enum.h
+++ b/src/easyMockGenerate/include/Enum.h
@@ -25,7 +25,7 @@ public:
   /*!
    * \brief Type used to store enum values
    */
-  using listOfValuesType = std::map<unsigned int, std::string>;
+  using listOfValuesType = std::multimap<int64_t, std::string>;
 
   /*!
    * \brief Creates an enum
-- 
2.43.0


From 95aa40cb932cfd2d03e12e897e5fc77ecf90ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 10/55] fix: methods that differ beyond their prototype make
 classes different

---
 src/easyMockGenerate/src/ComposableType.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/ComposableType.cpp b/src/easyMockGenerate/src/ComposableType.cpp
index b2f3fcb..a45fa6f 100644
--- a/src/easyMockGenerate/src/ComposableType.cpp
+++ b/src/easyMockGenerate/src/ComposableType.cpp
@@ -93,7 +93,8 @@ bool ComposableType::isEqual(const TypeItf& p_other) const
   {
     auto f1 = m_functions[funIdx];
     auto f2 = other->m_functions[funIdx];
-    if(f1->getFunctionPrototype() != f2->getFunctionPrototype())
+    // operator== would compare the parents of the functions and thus call this function again
+    if(f1->getFunctionPrototype() != f2->getFunctionPrototype() || f1->getHash() != f2->getHash())
     {
       return false;
     }
-- 
2.43.0


From 513c942ad45d74563ab4228328b00cedd7e7a5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 11/55] fix: compare the kind of incomplete types

---
 src/easyMockGenerate/include/IncompleteType.h | 4 ++++
 src/easyMockGenerate/src/IncompleteType.cpp   | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/easyMockGenerate/include/IncompleteType.h b/src/easyMockGenerate/include/IncompleteType.h
index 51db28c..0f8618e 100644
--- a/src/easyMockGenerate/include/IncompleteType.h
+++ b/src/easyMockGenerate/include/IncompleteType.h
@@ -80,6 +80,10 @@ public:
   virtual ~IncompleteType();
 
 protected:
+  /*!
+   * \copydoc ::TypeItf::isEqual
+   */
+  bool isEqual(const TypeItf& p_other) const override;
 private:
   Type m_type;
   std::size_t m_cachedHash;
diff --git a/src/easyMockGenerate/src/IncompleteType.cpp b/src/easyMockGenerate/src/IncompleteType.cpp
index 272ee46..c80c829 100644
--- a/src/easyMockGenerate/src/IncompleteType.cpp
+++ b/src/easyMockGenerate/src/IncompleteType.cpp
@@ -60,5 +60,12 @@ void IncompleteType::cacheHash() noexcept
   m_cachedHash = IncompleteType::getHash();
 }
 
+bool IncompleteType::isEqual(const TypeItf& p_other) const
+{
+  const IncompleteType* other = dynamic_cast<const IncompleteType*>(&p_other);
+
+  return other && TypeItf::isEqual(p_other) && m_type == other->m_type;
+}
+
 IncompleteType::~IncompleteType()
 {}
-- 
2.43.0


From b6a2669472f733f74c9a3ffcaa40f4857c502d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:55 +0000
Subject: [PATCH 12/55] fix: mock a C function once however its declarations
 are spelled

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 3eab7b3..c8592a1 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1310,6 +1310,7 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   std::replace( fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), '-', '_');
   m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT_UPPER, fileNameWithoutExtUpper);
   std::unordered_set<std::size_t> generatedElements;
+  std::unordered_set<std::string> generatedCFunctions;
   for (const auto& fun: fList)
   {
 
@@ -1361,6 +1362,14 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
         continue;
       }
       generatedElements.insert(rawHash);
+      /*
+       * In C, a name identifies a function. A function may be declared again with compatible types that are
+       * spelled differently e.g. int f(int a); int f(const int a);
+       */
+      if(!m_isCpp && !generatedCFunctions.insert(*fun->getName()).second)
+      {
+        continue;
+      }
       generateFunctionSection(m_rootDictionary, fun);
   }
 
-- 
2.43.0


From 7abdd1205448970a9af364a890c13529f87df557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 13/55] fix: don't mock a function the header defines after
 declaring it

---
 .../CodeGeneratorCTemplate.cpp                | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index c8592a1..95d7a6b 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1311,6 +1311,24 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT_UPPER, fileNameWithoutExtUpper);
   std::unordered_set<std::size_t> generatedElements;
   std::unordered_set<std::string> generatedCFunctions;
+  /*
+   * A function can be declared before the declaration which makes it impossible to mock. Remember which ones the
+   * header defines so that none of their declarations is used to create a mock.
+   */
+  std::unordered_set<std::size_t> definedFunctions;
+  std::unordered_set<std::string> definedCFunctions;
+  auto isDefinedByHeader = [](const FunctionDeclaration &fun)
+  {
+    return fun.isInlined() || fun.doesThisDeclarationHasABody() || fun.isStatic();
+  };
+  for (const auto& fun: fList)
+  {
+    if(isDefinedByHeader(*fun))
+    {
+      definedFunctions.insert(fun->getRawHash());
+      definedCFunctions.insert(*fun->getName());
+    }
+  }
   for (const auto& fun: fList)
   {
 
@@ -1318,8 +1336,9 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
        * In the case where the used types are generated, it is ok to create a mock for the function
        * since the original header is not used by the mock.
        */
-      if((fun->isInlined() || fun->doesThisDeclarationHasABody() || fun->isStatic()) &&
-          !m_generateUsedType)
+      bool isDefined = isDefinedByHeader(*fun) || definedFunctions.find(fun->getRawHash()) != definedFunctions.end() ||
+          (!m_isCpp && definedCFunctions.find(*fun->getName()) != definedCFunctions.end());
+      if(isDefined && !m_generateUsedType)
       {
         continue;
       }
-- 
2.43.0


From 8e4e4f096409d32341f4218d8ee83de58c9c7d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:37 +0000
Subject: [PATCH 14/55] fix: don't keep the other spellings of the function
 specifiers in the return type

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 2d6c2b0..75ce7ad 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -456,7 +456,11 @@ private:
     }
 
     declString = std::regex_replace(declString, removeAttrRegex, "");
+    eraseInString(declString, "__inline__ ");
+    eraseInString(declString, "__inline ");
     eraseInString(declString, "inline ");
+    eraseInString(declString, "_Noreturn ");
+    eraseInString(declString, "__extension__ ");
     eraseInString(declString, "extern ");
     eraseInString(declString, "static ");
     declString = trim(declString);
-- 
2.43.0


From 531a18eebd39c73ed29d7c2ec702236ed1661695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 15/55] fix: end when a function starts with a macro that
 expands to an attribute

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 75ce7ad..94a9686 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -431,8 +431,9 @@ private:
      * This is needed because some attribute like "noreturn" aren't part of the function attribute list for
      * LLVM.
      */
-    clang::SourceLocation itrSource = beginSourceLocation;
-    while(m_SM->isBeforeInTranslationUnit(itrSource,startOfFunNameLocation))
+    clang::SourceLocation itrSource = m_SM->getExpansionLoc(beginSourceLocation);
+    const clang::SourceLocation endSource = m_SM->getExpansionLoc(startOfFunNameLocation);
+    while(m_SM->isBeforeInTranslationUnit(itrSource, endSource))
     {
       //itrSource = clang::Lexer::GetBeginningOfToken(itrSource, *m_SM, *m_LO);
       clang::Token rawToken;
@@ -442,6 +443,10 @@ private:
       dumpSourceRange.setEnd(rawToken.getEndLoc());
       clang::StringRef dumpStrRef = clang::Lexer::getSourceText(dumpSourceRange, *m_SM, *m_LO);
       const std::string currentTokenStr{dumpStrRef.str()};
+      if(currentTokenStr.empty())
+      {
+        break;
+      }
       if(m_ctxt.hasMacroDefine(currentTokenStr))
       {
         const MacroDefinition& md = m_ctxt.getMacroDefinition(currentTokenStr);
-- 
2.43.0


From 8a016278ab77178280d2aa64fa49beaab7c7b93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 16/55] fix: generate attributes spelled __name__ and each
 format attribute with its own arguments

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 94a9686..11a2fc2 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -253,6 +253,11 @@ private:
         continue;
       }
       std::string attrName = identifierInfo->getName().str();
+      // __name__ is another spelling of the attribute name
+      if(attrName.length() > 4 && attrName.compare(0, 2, "__") == 0 && attrName.compare(attrName.length() - 2, 2, "__") == 0)
+      {
+        attrName = attrName.substr(2, attrName.length() - 4);
+      }
       FunctionAttribute::ParametersList parametersList = getFunAttrParamList(clangFunc, attr);
       FunctionAttribute functionAttribute{std::move(attrName), std::move(parametersList)};
 
@@ -295,8 +300,8 @@ private:
      * to the code.
      * This fallback case works for the majority of the case we have seen so far.
      */
-    const clang::FormatAttr *formatAttr = attr->getKind() == clang::attr::Kind::Format ? clangFunc->getAttr<clang::FormatAttr>() : nullptr;
-    const clang::SectionAttr *sectionAttr = attr->getKind() == clang::attr::Kind::Section ? clangFunc->getAttr<clang::SectionAttr>() : nullptr;
+    const clang::FormatAttr *formatAttr = clang::dyn_cast<clang::FormatAttr>(attr);
+    const clang::SectionAttr *sectionAttr = clang::dyn_cast<clang::SectionAttr>(attr);
     if(formatAttr)
     {
       parametersList = getFormatAttrParamList(formatAttr);
-- 
2.43.0


From e64e534a4b3187b4cb8986fbcdcb321114072882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:44 +0000
Subject: [PATCH 17/55] fix: quote the name of the section in a generated
 section attribute

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 95d7a6b..b6120a4 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1417,7 +1417,8 @@ void CodeGeneratorCTemplate::generateFunctionAttributes(const std::shared_ptr<co
       for(const std::string& funAttrParam : funAttrParams)
       {
         ctemplate::TemplateDictionary *funAttrParamDict = funAttrParamsList->AddSectionDictionary(FUNCTION_ATTR_PARAMETER_LIST);
-        funAttrParamDict->SetValue(FUNCTION_PARAM_NAME, funAttrParam);
+        // The parameter of the section attribute is a string of which the parser gives the value
+        funAttrParamDict->SetValue(FUNCTION_PARAM_NAME, name == "section" ? "\"" + funAttrParam + "\"" : funAttrParam);
       }
     }
   }
-- 
2.43.0


From c9abc45db363960038abd9a8edfbab0c076448a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 18/55] fix: keep the attributes out of the name of the
 function in the errors

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index b6120a4..9025a75 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -430,7 +430,8 @@ FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_match_" PARAMETER_NAME("")
 #define INSIDE_CLASS_FUNCTION_DECLARATION FUNCTION_ACCESS_SPECIFIER ": " FUNCTION_RETURN_VALUE_TYPE " " FUNCTION_NAME FUNCTION_PARAMETERS IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const") ";"
 
 #define FUNCTION_PARAMETERS "("  FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_SECTION_EXISTS(VARIADIC_SECTION, VARIADIC_TEMPLATE_VAR) ")"
-#define TEMPLATE_FUNCTION_TO_BE_MOCKED FUNCTION_ATTRIBUTE_DECLARATION_LIST FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
+#define TEMPLATE_FUNCTION_PROTOTYPE FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
+#define TEMPLATE_FUNCTION_TO_BE_MOCKED FUNCTION_ATTRIBUTE_DECLARATION_LIST TEMPLATE_FUNCTION_PROTOTYPE
 #define MOCKED_FUN_CLASS(F_NAME) "mocked_" F_NAME
 #define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_NAME)
 
@@ -760,7 +761,7 @@ const char templateText[] =
         FUNCTION_INIT_ALL_MOCK_SIGNATURE CARRIAGE_RETURN
         "{" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(FUNCTION_SECTION)
-        "    MockedFunction_init(&" TEMPLATE_MOCKED_FUN_CLASS ", \"" TEMPLATE_FUNCTION_TO_BE_MOCKED "\", sizeof(" FUNCTION_MOCK_DATA_TYPE ") );" CARRIAGE_RETURN
+        "    MockedFunction_init(&" TEMPLATE_MOCKED_FUN_CLASS ", \"" TEMPLATE_FUNCTION_PROTOTYPE "\", sizeof(" FUNCTION_MOCK_DATA_TYPE ") );" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_SECTION)
         "}"
         CARRIAGE_RETURN
-- 
2.43.0


From 0424ce11ac61aa0db8e3cd389dc646176ba086f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 19/55] fix: recognise __attribute as a spelling of
 __attribute__

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 11a2fc2..69eea85 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -428,7 +428,7 @@ private:
     {
       removeAttr(declString, attr);
     }
-    static std::regex removeAttrRegex{"__attribute__[[:space:]]*\\([[:space:]]*\\(.*\\)[[:space:]]*\\)"};
+    static std::regex removeAttrRegex{"__attribute(?:__)?[[:space:]]*\\([[:space:]]*\\(.*\\)[[:space:]]*\\)"};
 
     /*
      * Loop through all the token of the declaration and verifies if it expands to __attribute((<something>)).
-- 
2.43.0


From da3d5ac995bb3b08e43a15fc6f32ae295d35f4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:47 +0000
Subject: [PATCH 20/55] fix: declare the typedefs a typedef refers to before it

---
 .../CodeGeneratorCTemplate.cpp                 | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 9025a75..25651cd 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2542,6 +2542,23 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
   const TypeItf *rawType = getRawType(typeeType);
   const FunctionType *functionType = rawType->asFunctionType();
   bool isRawTypeFunctionType = functionType != nullptr;
+  /*
+   * The declarations are generated in the order in which they are added. Whatever the definition of the typedef
+   * refers to must come first e.g. typedef int foo; typedef foo *bar;
+   */
+  if(isRawTypeFunctionType)
+  {
+    generateDeclarationOfUsedType(m_rootDictionary, functionType, false);
+  }
+  else
+  {
+    const TypeItf* referredType = typeeType;
+    while(referredType->isPointer() || referredType->isQualified())
+    {
+      referredType = referredType->isPointer() ? referredType->asPointer()->getPointedType() : referredType->asQualifiedType()->getUnqualifiedType();
+    }
+    generateSimpleTypeDef(referredType);
+  }
   ctemplate::TemplateDictionary *typeDefDict = m_rootDictionary->AddSectionDictionary(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION);
   typeDefDict->SetValue(GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME_NAME, typedefName);
 
@@ -2555,7 +2572,6 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
   }
   else
   {
-    generateDeclarationOfUsedType(m_rootDictionary, functionType, false);
     localType += typedefName;
     localType += functionType->getDeclarationPostfix();
     /*
-- 
2.43.0


From bef94e7e6ca0a45ffb862aa4a10d5c4a4b0409f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 21/55] fix: spell out function and anonymous types where the
 typedefs do

---
 .../CodeGeneratorCTemplate.cpp                | 43 +++++++++++++------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 25651cd..5c4ae3f 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1082,6 +1082,19 @@ const TypeItf* CodeGeneratorCTemplate::getMostDefinedType(const TypeItf *p_type)
   return p_type;
 }
 
+/*
+ * Returns the function type which must be spelled out in a declaration using p_type. If the function type (or a
+ * pointer to it) is named by a typedef, then there is nothing to spell out.
+ */
+static const FunctionType* getSpelledOutFunctionType(const TypeItf* p_type)
+{
+  while(p_type->isPointer() || p_type->isQualified())
+  {
+    p_type = p_type->isPointer() ? p_type->asPointer()->getPointedType() : p_type->asQualifiedType()->getUnqualifiedType();
+  }
+  return p_type->asFunctionType();
+}
+
 const TypeItf* CodeGeneratorCTemplate::getRawType(const TypeItf* p_type)
 {
   const Pointer* pointerType = p_type->asPointer();
@@ -1516,8 +1529,7 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   functionSectionDict->SetValue(FUNCTION_NON_QUALIFIED_RETURN_VALUE, nonQualDereferencedRetTypeStr);
   if(nonQualifiedReturnValuePointer)
   {
-    const TypeItf *returnValuePointerPointedType = getRawType(nonQualifiedReturnValuePointer);
-    const FunctionType *functionType = returnValuePointerPointedType->asFunctionType();
+    const FunctionType *functionType = getSpelledOutFunctionType(nonQualifiedReturnValuePointer);
     if(functionType)
     {
       generateDeclarationOfUsedType(p_parentDictionary, functionType, false);
@@ -1541,8 +1553,7 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
     returnValParamDict->SetValue(FUNCTION_DEREFERENCED_RETURN_VALUE, getDereferencedType(*rvType).getFullDeclarationName());
     if(nonQualifiedReturnValuePointer)
     {
-      const TypeItf *returnValuePointerPointedType = getRawType(nonQualifiedReturnValuePointer);
-      const FunctionType *functionType = returnValuePointerPointedType->asFunctionType();
+      const FunctionType *functionType = getSpelledOutFunctionType(nonQualifiedReturnValuePointer);
       if(functionType)
       {
         generateDeclarationOfUsedType(p_parentDictionary, functionType, false);
@@ -1579,8 +1590,7 @@ void CodeGeneratorCTemplate::generateExtraDecl(ctemplate::TemplateDictionary *di
   const Pointer *nonQualifiedReturnValueTypePointer = returnValueType->unqualify()->asPointer();
   if(nonQualifiedReturnValueTypePointer)
   {
-    const TypeItf *returnValuePointedType = getRawType(nonQualifiedReturnValueTypePointer);
-    const FunctionType *recursiveFunctionType = returnValuePointedType->asFunctionType();
+    const FunctionType *recursiveFunctionType = getSpelledOutFunctionType(nonQualifiedReturnValueTypePointer);
     if(recursiveFunctionType)
     {
       ctemplate::TemplateDictionary *inInDict = extraDeclDict->AddSectionDictionary(std::string(sectionName) + "INSIDE");
@@ -1633,8 +1643,7 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
     else
     {
       functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, argType);
-      const TypeItf *paramPtrPointedType = getRawType(nonQualifiedParamPtrType);
-      const FunctionType *ft = paramPtrPointedType->asFunctionType();
+      const FunctionType *ft = getSpelledOutFunctionType(nonQualifiedParamPtrType);
       if(ft)
       {
         generateDeclarationOfUsedType(m_rootDictionary, ft, false);
@@ -2249,7 +2258,7 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
         const Pointer* nonQualifiedFieldPtrType = fieldType->unqualify()->asPointer();
         if(nonQualifiedFieldPtrType)
         {
-          const FunctionType *ft = getRawType(nonQualifiedFieldPtrType)->asFunctionType();
+          const FunctionType *ft = getSpelledOutFunctionType(nonQualifiedFieldPtrType);
           if (ft)
           {
             generateDeclarationOfUsedType(m_rootDictionary, ft, false);
@@ -2539,20 +2548,19 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
    * typedef (p_naked == true).
    */
   std::string localType { typeeType->getFullDeclarationName(true) };
-  const TypeItf *rawType = getRawType(typeeType);
-  const FunctionType *functionType = rawType->asFunctionType();
+  const FunctionType *functionType = getSpelledOutFunctionType(typeeType);
   bool isRawTypeFunctionType = functionType != nullptr;
   /*
    * The declarations are generated in the order in which they are added. Whatever the definition of the typedef
    * refers to must come first e.g. typedef int foo; typedef foo *bar;
    */
+  const TypeItf* referredType = typeeType;
   if(isRawTypeFunctionType)
   {
     generateDeclarationOfUsedType(m_rootDictionary, functionType, false);
   }
   else
   {
-    const TypeItf* referredType = typeeType;
     while(referredType->isPointer() || referredType->isQualified())
     {
       referredType = referredType->isPointer() ? referredType->asPointer()->getPointedType() : referredType->asQualifiedType()->getUnqualifiedType();
@@ -2564,9 +2572,16 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
 
   if(!isRawTypeFunctionType)
   {
-    if (rawType->getName().empty())
+    const ComposableType* anonymousComposable = referredType->asComposableType();
+    if (referredType->getName().empty() && (anonymousComposable || referredType->asEnum()))
     {
-      localType += std::string{" "} + getAnonymousName(rawType);
+      /*
+       * The name comes right after the keyword e.g. typedef struct name *foo;
+       */
+      const std::string anonymousKeyword { anonymousComposable ? anonymousComposable->getComposableTypeKeyword() : "enum" };
+      const size_t keywordPos = localType.find(anonymousKeyword);
+      assert(keywordPos != std::string::npos);
+      localType.insert(keywordPos + anonymousKeyword.size(), std::string{" "} + getAnonymousName(referredType));
     }
     typeDefDict->SetValue(GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_VAR, typedefName);
   }
-- 
2.43.0


From fd463c89079b28366e0a3c433fc7b8c0ed3c4a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 22/55] fix: keep the type _Bool

---
 src/easyMockGenerate/include/EasyMockGenerateTypes.h | 8 ++++++++
 src/easyMockGenerate/src/EasyMockGenerateTypes.cpp   | 4 ++++
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp   | 2 +-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/include/EasyMockGenerateTypes.h b/src/easyMockGenerate/include/EasyMockGenerateTypes.h
index 642ed23..1bd2e27 100644
--- a/src/easyMockGenerate/include/EasyMockGenerateTypes.h
+++ b/src/easyMockGenerate/include/EasyMockGenerateTypes.h
@@ -73,6 +73,14 @@ typedef enum
    * \brief <tt> unsigned __int128 </tt> type
    */
   CTYPE_UINT128,
+  /*!
+   * \brief <tt> _Bool </tt> type of C
+   */
+  CTYPE_C_BOOL,
+  /*!
+   * \brief <tt> bool </tt> type of C++
+   */
+  CTYPE_CPP_BOOL,
   /*!
    * \brief @c void type
    */
diff --git a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
index e9171d5..2febf6e 100644
--- a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
+++ b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
@@ -20,6 +20,8 @@ const char *easyMock_arrayCTypeStr[] =
   "long double",
   "__int128",
   "unsigned __int128",
+  "_Bool",
+  "bool",
   "void",
   "invalid"
 };
@@ -44,6 +46,8 @@ const char *easyMock_printfFormat[] =
   "Lf",
   "lf%lf",
   "Lf%Lf",
+  "d",
+  "d",
   "voidInvalidPrintfFormat",
   "invalidPrintfFormat"
 };
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 69eea85..825a15e 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -713,7 +713,7 @@ private:
     }
     else if(isBoolType(type))
     {
-      cType = std::make_shared<CType>(CTYPE_INT);
+      cType = std::make_shared<CType>(m_context->getLangOpts().CPlusPlus ? CTYPE_CPP_BOOL : CTYPE_C_BOOL);
     }
     else if(isInt128Type(type))
     {
-- 
2.43.0


From 496c54b8e623aed659e2bdead01a12e542050f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 23/55] fix: keep the type signed char

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 825a15e..7ecb97d 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -670,6 +670,10 @@ private:
     {
       cType = std::make_shared<CType>(CTYPE_VOID);
     }
+    else if(type.isSpecificBuiltinType(clang::BuiltinType::SChar))
+    {
+      cType = std::make_shared<CType>(CTYPE_SCHAR);
+    }
     else if(type.isCharType())
     {
 #if IS_CHAR_DEFAULT_UNSIGNED
-- 
2.43.0


From 1ec7ed485b18c0098d83657cd929a1de6b4f78a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 24/55] fix: keep function types variadic

---
 .../include/CodeGeneratorCTemplate.h          |  1 +
 .../CodeGeneratorCTemplate.cpp                | 25 ++++++++++++-------
 src/easyMockGenerate/src/FunctionType.cpp     |  4 +++
 .../src/LLVMParser/LLVMParser.cpp             |  1 +
 4 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index 6f67809..432af03 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -75,6 +75,7 @@ private:
   void fillInMacroDefinition(const ElementToMockContext& p_elem);
   void generateFunctionSection(ctemplate::TemplateDictionary* p_parentDictionary, const std::shared_ptr<const FunctionDeclaration> &f);
   void generateFunctionAttributes(const std::shared_ptr<const FunctionDeclaration> &f, ctemplate::TemplateDictionary *functionSectionDict);
+  void generateVariadicSection(ctemplate::TemplateDictionary *p_functionSectionDict, const Function *p_function);
   void generateFunctionParamSection(ctemplate::TemplateDictionary *dict, const Parameter::Vector& functionParam);
   //p_uniquePrepend and p_declPrepend must never become a reference because the string appended in recursive calls must reverted when the recursive call returns
   void generateAllFieldStructCompare(ctemplate::TemplateDictionary *p_compareFunDict, const ComposableType *p_composedType, std::string p_uniquePrepend, std::string p_declPrepend);
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 5c4ae3f..69b2b17 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1563,17 +1563,23 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   }
   const Parameter::Vector& funParams = p_elemToMock->getFunctionsParameters();
   generateFunctionParamSection(functionSectionDict, funParams);
-  if(p_elemToMock->isVariadic())
+  generateVariadicSection(functionSectionDict, p_elemToMock.get());
+}
+
+void CodeGeneratorCTemplate::generateVariadicSection(ctemplate::TemplateDictionary *p_functionSectionDict, const Function *p_function)
+{
+  if(!p_function->isVariadic())
   {
-    ctemplate::TemplateDictionary *variadicSection = functionSectionDict->AddSectionDictionary(VARIADIC_SECTION);
-    std::string variadicString;
-    if(funParams.size() > 0)
-    {
-      variadicString.append(", ");
-    }
-    variadicString.append("...");
-    variadicSection->SetValue(VARIADIC_VAR, variadicString);
+    return;
+  }
+  ctemplate::TemplateDictionary *variadicSection = p_functionSectionDict->AddSectionDictionary(VARIADIC_SECTION);
+  std::string variadicString;
+  if(p_function->getFunctionsParameters().size() > 0)
+  {
+    variadicString.append(", ");
   }
+  variadicString.append("...");
+  variadicSection->SetValue(VARIADIC_VAR, variadicString);
 }
 
 void CodeGeneratorCTemplate::generateExtraDecl(ctemplate::TemplateDictionary *dict, const char *sectionName, const char *templateFileName, const FunctionType *functionType)
@@ -1584,6 +1590,7 @@ void CodeGeneratorCTemplate::generateExtraDecl(ctemplate::TemplateDictionary *di
   extraDeclDict->SetFilename(templateFileName);
 
   generateFunctionParamSection(extraDeclDict, functionType->getFunctionsParameters());
+  generateVariadicSection(extraDeclDict, functionType);
 
   const ReturnValue *rv = functionType->getReturnValue();
   const TypeItf *returnValueType = rv->getType();
diff --git a/src/easyMockGenerate/src/FunctionType.cpp b/src/easyMockGenerate/src/FunctionType.cpp
index 0b15cb5..f89a3cb 100644
--- a/src/easyMockGenerate/src/FunctionType.cpp
+++ b/src/easyMockGenerate/src/FunctionType.cpp
@@ -39,6 +39,10 @@ std::string FunctionType::getDeclarationPostfix(bool p_naked) const
     returnStr.append(p.getDeclareString());
     firstParam = false;
   }
+  if(isVariadic())
+  {
+    returnStr.append(firstParam ? "..." : ", ...");
+  }
   returnStr.push_back(')');
   return returnStr;
 }
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 7ecb97d..928155f 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -786,6 +786,7 @@ private:
       vectParam.push_back(std::move(p));
     }
     auto f = std::make_shared<FunctionType>(std::move(rv), std::move(vectParam));
+    f->setVariadic(fp->isVariadic());
 
     return f;
   }
-- 
2.43.0


From 70b157afa939bb3a4dd49048de422ad6aa27010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 25/55] fix: accept pointers to functions without prototype

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 928155f..8808473 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -634,7 +634,7 @@ private:
     {
       type = getFromUnionType(clangType, structKnownType, isEmbeddedInOtherType);
     }
-    else if (clangType.isFunctionProtoType())
+    else if (clangType.isFunctionType())
     {
       type = getFromFunctionPrototype(clangType, structKnownType);
     }
@@ -768,14 +768,16 @@ private:
    */
   std::shared_ptr<TypeItf> getFromFunctionPrototype(const clang::Type &type, structKnownTypeMap &structKnownType)
   {
+    const clang::FunctionType *ft = type.getAs<clang::FunctionType>();
+    //Null for a function type without prototype e.g. int (*f)()
     const clang::FunctionProtoType *fp = type.getAs<clang::FunctionProtoType>();
 
-    const clang::QualType &rvQualType = fp->getReturnType();
+    const clang::QualType &rvQualType = ft->getReturnType();
 
     std::shared_ptr<TypeItf> rvType = getEasyMocktype(rvQualType, structKnownType, false);
     ReturnValue rv(std::move(rvType));
 
-    unsigned nbParams = fp->getNumParams();
+    unsigned nbParams = fp ? fp->getNumParams() : 0;
     Parameter::Vector vectParam;
     for(unsigned paramIdx = 0; paramIdx < nbParams; paramIdx++)
     {
@@ -786,7 +788,7 @@ private:
       vectParam.push_back(std::move(p));
     }
     auto f = std::make_shared<FunctionType>(std::move(rv), std::move(vectParam));
-    f->setVariadic(fp->isVariadic());
+    f->setVariadic(fp && fp->isVariadic());
 
     return f;
   }
@@ -1058,7 +1060,7 @@ private:
       const clang::QualType &pointeeType = type.getPointeeType();
       return isFunctionType(pointeeType);
     }
-    return type.isFunctionProtoType();
+    return type.isFunctionType();
   }
 
   bool isBoolType(const clang::Type &type)
-- 
2.43.0


From fb743a80b2da48b3d1c9c10c05ba73ab4f89dac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 26/55] fix: output of a typedef'd incomplete type needs a size

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 69b2b17..15256cc 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1703,8 +1703,10 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
         newPtrParamSection->SetValue(FUNCTION_PARAM_TYPE, argType);
         newPtrParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
         ctemplate::TemplateDictionary* subdict = nullptr;
-        const ComposableType* composableTypeField = pointedType->asComposableType();
-        if(pointedType->getCType() == CTYPE_VOID || (composableTypeField && composableTypeField->isForwardDeclared()))
+        //The size of what is pointed to isn't known, whether it is named by a typedef or not.
+        const TypeItf* untypedefPointedType = getUnqualifiedAndUntypedefType(pointedType);
+        const ComposableType* composableTypeField = untypedefPointedType->asComposableType();
+        if(untypedefPointedType->getCType() == CTYPE_VOID || (composableTypeField && composableTypeField->isForwardDeclared()))
         {
           subdict = newPtrParamSection->AddSectionDictionary(FUNCTION_VOID_PTR_OUT_SECTION);
         }
-- 
2.43.0


From 60784e24d2b92ec00bca54399dd31c2e34ec2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 27/55] fix: no output through a pointer to a typedef of a
 const type

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 15256cc..3df0d47 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -987,6 +987,15 @@ const TypeItf* getUnqualifiedAndUntypedefType(const TypeItf* p_type)
   return p_type;
 }
 
+static bool isConstOrTypedefOfConst(const TypeItf* p_type)
+{
+  while(!p_type->isConst() && p_type->isTypedDef())
+  {
+    p_type = p_type->asTypedefType()->getTypee();
+  }
+  return p_type->isConst();
+}
+
 const TypedefType* getTypeDefType(const TypeItf* p_type)
 {
   const TypedefType* typeDefType = p_type->asTypedefType();
@@ -1689,7 +1698,7 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
     if(nonQualifiedParamPtrType)
     {
       const TypeItf* pointedType = nonQualifiedParamPtrType->getMostPointedType();
-      if(!pointedType->isConst() &&
+      if(!isConstOrTypedefOfConst(pointedType) &&
          !pointedType->isImplicit() &&
          !pointedType->isFunctionType())
       {
-- 
2.43.0


From bf99a3737d65e4bca3519a8aa7d95e83f64684af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 28/55] fix: generate the last definition of a redefined macro

---
 src/easyMockGenerate/src/ElementToMockContext.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/easyMockGenerate/src/ElementToMockContext.cpp b/src/easyMockGenerate/src/ElementToMockContext.cpp
index 05e21b1..0fd2de0 100644
--- a/src/easyMockGenerate/src/ElementToMockContext.cpp
+++ b/src/easyMockGenerate/src/ElementToMockContext.cpp
@@ -13,6 +13,8 @@ void ElementToMockContext::addMacroDefine(std::string p_id, std::vector<std::str
 void ElementToMockContext::addMacroDefine(std::string p_id, std::vector<std::string> p_parameters, std::string p_definition, std::string p_originFile)
 {
   std::string copy_id = p_id;
+  //When the macro is redefined, the last definition is the one which counts
+  m_macroDefinition.erase(copy_id);
   m_macroDefinition.try_emplace(std::move(p_id), std::move(copy_id), std::move(p_parameters), std::move(p_definition), std::move(p_originFile));
 }
 
-- 
2.43.0


From 4a03e6209fbd1df0bba972c7cee7d77e40174ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 29/55] fix: generate the parameter lists of macros without
 parameters and of GNU variadic macros

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 8808473..4ef27df 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -1187,6 +1187,16 @@ public:
           parameters.emplace_back(paramStr);
         }
       }
+      if(macroInfo->isGNUVarargs())
+      {
+        //The last parameter is variadic e.g. #define FOO(args...)
+        parameters.back().append("...");
+      }
+      if(parameters.empty())
+      {
+        //Must be generated with its parentheses e.g. #define FOO() 1
+        parameters.emplace_back("");
+      }
     }
     unsigned numToken = macroInfo->getNumTokens();
     for(unsigned i = 0; i < numToken; i++)
-- 
2.43.0


From a59681d10e5fa6c92ded5c33eb82a4ab6ff7efb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 30/55] fix: keep the const of a typedef

---
 .../CodeGeneratorCTemplate.cpp                |  5 +++++
 .../src/LLVMParser/LLVMParser.cpp             | 20 +++++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 3df0d47..ef5b812 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2605,6 +2605,11 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
   }
   else
   {
+    if(localType.back() != '*')
+    {
+      //e.g. typedef void(* const foo)(void);
+      localType.push_back(' ');
+    }
     localType += typedefName;
     localType += functionType->getDeclarationPostfix();
     /*
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 4ef27df..b7a07f3 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -739,7 +739,7 @@ private:
     std::shared_ptr<TypeItf> returnedType = cType;
     if(!typedefName.empty())
     {
-      returnedType = std::make_shared<TypedefType>(typedefName, std::move(returnedType));
+      returnedType = makeTypedefType(type, typedefName, std::move(returnedType));
     }
 
     return returnedType;
@@ -811,7 +811,7 @@ private:
     std::shared_ptr<TypeItf> toReturn = enumType;
     if(!typedefName.empty())
     {
-      toReturn = std::make_shared<TypedefType>(typedefName, std::move(toReturn));
+      toReturn = makeTypedefType(type, typedefName, std::move(toReturn));
     }
     return toReturn;
   }
@@ -947,7 +947,7 @@ private:
     std::shared_ptr<TypeItf> toReturn = sType;
     if(!typedDefName.empty())
     {
-      toReturn = std::make_shared<TypedefType>(typedDefName, std::move(toReturn));
+      toReturn = makeTypedefType(p_type, typedDefName, std::move(toReturn));
       structKnownType.erase(typedDefName);
     }
     if(!typeName.empty())
@@ -976,7 +976,7 @@ private:
     std::string typedDefName = getTypedefName(type);
     if(!typedDefName.empty())
     {
-      returnedTyped = std::make_shared<TypedefType>(typedDefName, std::move(returnedTyped));
+      returnedTyped = makeTypedefType(type, typedDefName, std::move(returnedTyped));
     }
 
     return returnedTyped;
@@ -1115,6 +1115,18 @@ private:
     }
   }
 
+  /*
+   * The qualifiers of what the typedef stands for belong to the typedef e.g. typedef const int foo;
+   */
+  std::shared_ptr<TypeItf> makeTypedefType(const clang::Type &type, const std::string& name, std::shared_ptr<TypeItf> typee)
+  {
+    if(type.getCanonicalTypeInternal().isLocalConstQualified() && !typee->isConst())
+    {
+      typee = std::make_shared<ConstQualifiedType>(std::move(typee));
+    }
+    return std::make_shared<TypedefType>(name, std::move(typee));
+  }
+
   std::string getTypedefName(const clang::Type &type)
   {
     const clang::TypedefType* TDT = type.getAs<clang::TypedefType>();
-- 
2.43.0


From 26f1d4b5fbb63b202f0338541d33e06eaf95ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 31/55] fix: declare unnamed va_list parameters as they are
 spelled

---
 .../src/LLVMParser/LLVMParser.cpp                 | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index b7a07f3..395c131 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -528,7 +528,9 @@ private:
        */
       if(beginLoc.isMacroID() || parameterRawType->isImplicit())
       {
-        std::string declareString = getDeclareString(beginLoc, param->getEndLoc(), false);
+        //The declared string ends where the name starts: when there is none, take the type as it is spelled.
+        std::string declareString = paramName.empty() && parameterRawType->isImplicit() ?
+            getSpelledType(paramQualType) : getDeclareString(beginLoc, param->getEndLoc(), false);
         setDeclaratorDeclareString(paramQualType, &p, declareString);
       }
       vectParam.push_back(std::move(p));
@@ -537,6 +539,13 @@ private:
     return vectParam;
   }
 
+  std::string getSpelledType(const clang::QualType& qualType)
+  {
+    const clang::DecayedType* decayedType = qualType->getAs<clang::DecayedType>();
+    //e.g. va_list is the name of an array type
+    return decayedType ? decayedType->getOriginalType().getAsString() : qualType.getAsString();
+  }
+
   std::string removeComments(std::string declareString)
   {
     static std::regex oneLineCommentRegex{"//.*\n"};
@@ -785,6 +794,10 @@ private:
       auto paramType = getEasyMocktype(paramQualType, structKnownType, false);
 
       Parameter p = Parameter{std::move(paramType), ""};
+      if(p.getType()->getRawType()->isImplicit())
+      {
+        setDeclaratorDeclareString(paramQualType, &p, getSpelledType(paramQualType));
+      }
       vectParam.push_back(std::move(p));
     }
     auto f = std::make_shared<FunctionType>(std::move(rv), std::move(vectParam));
-- 
2.43.0


From 90219517f18e9957f59c8b1e36f0880422b617d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 32/55] fix: the other declarators are no part of the return
 type

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 395c131..7219e17 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -474,7 +474,14 @@ private:
     eraseInString(declString, "extern ");
     eraseInString(declString, "static ");
     declString = trim(declString);
-    setDeclaratorDeclareString(rvQualType, &rv, declString);
+    /*
+     * When the function isn't the first one of its declaration (int foo(void), *bar(void);), what precedes its name
+     * isn't its type.
+     */
+    if(m_context->getLangOpts().CPlusPlus || declString.find(',') == std::string::npos)
+    {
+      setDeclaratorDeclareString(rvQualType, &rv, declString);
+    }
 
     return rv;
   }
-- 
2.43.0


From 35728c0a2a3ef3cdd44860942c78d061decc600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 33/55] fix: macros for specifiers are no part of the return
 type

---
 .../src/LLVMParser/LLVMParser.cpp             | 43 +++++++++++++++----
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 7219e17..53aa907 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -33,6 +33,7 @@
 #include <vector>
 #include <unordered_map>
 #include <regex>
+#include <set>
 #include <memory>
 #include <optional>
 #include <sstream>
@@ -404,6 +405,35 @@ private:
     }
   }
 
+  static const std::regex& getAttributeRegex()
+  {
+    static const std::regex attributeRegex{"__attribute(?:__)?[[:space:]]*\\([[:space:]]*\\(.*\\)[[:space:]]*\\)"};
+    return attributeRegex;
+  }
+
+  /*
+   * Tells whether the definition of a macro consists of attributes, storage class and function specifiers
+   * (or of macros for those) only.
+   */
+  bool isNoPartOfType(const std::string& macroDefinition, unsigned int depth = 0)
+  {
+    static const unsigned int MAX_DEPTH = 16;
+    static const std::set<std::string> specifiers{"extern", "static", "inline", "__inline", "__inline__", "_Noreturn", "__extension__", "\"C\""};
+    std::istringstream tokens{std::regex_replace(macroDefinition, getAttributeRegex(), "")};
+    for(std::string token; tokens >> token;)
+    {
+      if(specifiers.find(token) != specifiers.end())
+      {
+        continue;
+      }
+      if(depth == MAX_DEPTH || !m_ctxt.hasMacroDefine(token) || !isNoPartOfType(m_ctxt.getMacroDefinition(token).getDefinition(), depth + 1))
+      {
+        return false;
+      }
+    }
+    return true;
+  }
+
   ReturnValue getFunctionReturnValue(const clang::FunctionDecl* func)
   {
     const std::string funName = getFunctionName(func);
@@ -428,11 +458,10 @@ private:
     {
       removeAttr(declString, attr);
     }
-    static std::regex removeAttrRegex{"__attribute(?:__)?[[:space:]]*\\([[:space:]]*\\(.*\\)[[:space:]]*\\)"};
 
     /*
-     * Loop through all the token of the declaration and verifies if it expands to __attribute((<something>)).
-     * If so, remove the token.
+     * Loop through all the token of the declaration and verifies if it expands to __attribute((<something>))
+     * and to specifiers like extern only. If so, remove the token.
      * This is needed because some attribute like "noreturn" aren't part of the function attribute list for
      * LLVM.
      */
@@ -455,17 +484,15 @@ private:
       if(m_ctxt.hasMacroDefine(currentTokenStr))
       {
         const MacroDefinition& md = m_ctxt.getMacroDefinition(currentTokenStr);
-        std::string macroStr = md.getDefinition();
-        std::smatch match;
-        if(macroStr.empty() || std::regex_match(macroStr, match, removeAttrRegex))
+        if(isNoPartOfType(md.getDefinition()))
         {
-          removeFromString(declString, std::move(currentTokenStr), md.hasParameters());
+          removeFromString(declString, currentTokenStr, md.hasParameters());
         }
       }
       itrSource = itrSource.getLocWithOffset(currentTokenStr.length());
     }
 
-    declString = std::regex_replace(declString, removeAttrRegex, "");
+    declString = std::regex_replace(declString, getAttributeRegex(), "");
     eraseInString(declString, "__inline__ ");
     eraseInString(declString, "__inline ");
     eraseInString(declString, "inline ");
-- 
2.43.0


From f6fc66ed2266b6c5966bc1279ab6df011fd5cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 34/55] fix: keep the declarator of the further fields of a
 declaration

---
 .../src/LLVMParser/LLVMParser.cpp             | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 53aa907..318eb36 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -644,6 +644,27 @@ private:
     return declareString;
   }
 
+  std::string getFieldDeclareString(const clang::FieldDecl* fieldDecl)
+  {
+    clang::QualType qualType = fieldDecl->getType();
+    while(const clang::ArrayType* arrayType = qualType->getAsArrayTypeUnsafe())
+    {
+      qualType = arrayType->getElementType();
+    }
+    clang::CharSourceRange sourceRange = clang::Lexer::getAsCharRange(fieldDecl->getBeginLoc(), *m_SM, *m_LO);
+    sourceRange.setEnd(fieldDecl->getLocation());
+    const std::string precedingText = removeComments(clang::Lexer::getSourceText(sourceRange, *m_SM, *m_LO).str());
+    /*
+     * When the field isn't the first one of its declaration (int foo, *bar;), what precedes the first comma isn't its type.
+     */
+    if(!m_context->getLangOpts().CPlusPlus && !isFunctionType(qualType) &&
+       precedingText.find(',') != std::string::npos && precedingText.find('{') == std::string::npos)
+    {
+      return qualType.getAsString(m_context->getPrintingPolicy());
+    }
+    return getDeclareString(fieldDecl->getBeginLoc(), fieldDecl->getEndLoc(), true);
+  }
+
   std::shared_ptr<TypeItf> getEasyMocktype(const clang::QualType &clangQualType, structKnownTypeMap &structKnownType, bool isEmbeddedInOtherType)
   {
     const clang::Type &clangType = *clangQualType.getTypePtr();
@@ -986,7 +1007,7 @@ private:
             arraySize = -1;
           }
           ComposableField sf{std::move(fieldType), fName, {.arraySize = arraySize}};
-          setDeclaratorDeclareString(qualType, &sf, getDeclareString(FD->getBeginLoc(), FD->getEndLoc(), true));
+          setDeclaratorDeclareString(qualType, &sf, getFieldDeclareString(FD));
           sType->addField(std::move(sf));
         }
       }
-- 
2.43.0


From ecdf14ef898942894b4468e6e9468d0e2b4ad169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 35/55] fix: keep the declarators after an inline definition
 and around macro types

---
 .../CodeGeneratorCTemplate.cpp                | 11 +++++++
 .../src/LLVMParser/LLVMParser.cpp             | 33 ++++++++++++++++---
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index ef5b812..8bb9106 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2522,6 +2522,17 @@ std::string CodeGeneratorCTemplate::getDeclaratorString(const Declarator& p_decl
      */
     rv.append(" ");
     rv.append(getAnonymousName(declRawType));
+    /*
+     * The declarator comes after the definition (struct {int a;} *foo;)
+     */
+    std::string pointers;
+    const TypeItf* pointedType = declType;
+    while(const Pointer* pointer = pointedType->unqualify()->asPointer())
+    {
+      pointers.insert(0, pointedType->isConst() ? "* const" : "*");
+      pointedType = pointer->getPointedType();
+    }
+    rv.append(pointers);
   }
   return rv;
 }
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 318eb36..ab58c33 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -563,8 +563,21 @@ private:
       if(beginLoc.isMacroID() || parameterRawType->isImplicit())
       {
         //The declared string ends where the name starts: when there is none, take the type as it is spelled.
-        std::string declareString = paramName.empty() && parameterRawType->isImplicit() ?
-            getSpelledType(paramQualType) : getDeclareString(beginLoc, param->getEndLoc(), false);
+        std::string declareString;
+        if(paramName.empty() && parameterRawType->isImplicit())
+        {
+          declareString = getSpelledType(paramQualType);
+        }
+        else if(!m_context->getLangOpts().CPlusPlus && !parameterRawType->isImplicit() &&
+                (paramName.empty() || paramQualType->getAs<clang::DecayedType>()))
+        {
+          //What follows the name, or ends an unnamed declarator, is part of the type as well (T foo[], T *)
+          declareString = paramQualType.getAsString(m_context->getPrintingPolicy());
+        }
+        else
+        {
+          declareString = getDeclareString(beginLoc, param->getEndLoc(), false);
+        }
         setDeclaratorDeclareString(paramQualType, &p, declareString);
       }
       vectParam.push_back(std::move(p));
@@ -644,6 +657,15 @@ private:
     return declareString;
   }
 
+  clang::QualType getPointedType(clang::QualType qualType)
+  {
+    while(const clang::PointerType* pointerType = llvm::dyn_cast<clang::PointerType>(qualType.getTypePtr()))
+    {
+      qualType = pointerType->getPointeeType();
+    }
+    return qualType;
+  }
+
   std::string getFieldDeclareString(const clang::FieldDecl* fieldDecl)
   {
     clang::QualType qualType = fieldDecl->getType();
@@ -654,11 +676,14 @@ private:
     clang::CharSourceRange sourceRange = clang::Lexer::getAsCharRange(fieldDecl->getBeginLoc(), *m_SM, *m_LO);
     sourceRange.setEnd(fieldDecl->getLocation());
     const std::string precedingText = removeComments(clang::Lexer::getSourceText(sourceRange, *m_SM, *m_LO).str());
+    const bool isDefinedHere = precedingText.find('{') != std::string::npos;
+    const clang::TagDecl* tagDecl = getPointedType(qualType)->getAsTagDecl();
     /*
      * When the field isn't the first one of its declaration (int foo, *bar;), what precedes the first comma isn't its type.
+     * When the type is defined by the field (struct tag {int a;} *bar;), the declarator comes after the definition.
      */
-    if(!m_context->getLangOpts().CPlusPlus && !isFunctionType(qualType) &&
-       precedingText.find(',') != std::string::npos && precedingText.find('{') == std::string::npos)
+    if(!m_context->getLangOpts().CPlusPlus && !llvm::isa<clang::ParenType>(getPointedType(qualType)) &&
+       (isDefinedHere ? tagDecl && tagDecl->getIdentifier() : precedingText.find(',') != std::string::npos))
     {
       return qualType.getAsString(m_context->getPrintingPolicy());
     }
-- 
2.43.0


From ba64211d97e881b9f1891950493f73b8a172fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 36/55] fix: generate the enums before the typedefs that may
 refer to them

---
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 8bb9106..c03557e 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -858,13 +858,6 @@ const char headerFileTemplate[] =
           "#endif //" GENERATED_TYPE_FORWARD_DECLARATION_GUARD_NAME CARRIAGE_RETURN
           TEMPLATE_END_SECTION(GENERATED_TYPE_FORWARD_DECLARATION_SECTION)
 
-          TEMPLATE_BEG_SECTION(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION)
-          "#ifndef " GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
-          "#define " GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
-          "typedef " GENERATED_TYPE_SIMPLE_TYPEDEF_TYPEE_TEMPLATE_VAR " " GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_TEMPLATE_VAR ";" CARRIAGE_RETURN
-          "#endif //" GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
-          TEMPLATE_END_SECTION(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION)
-
           TEMPLATE_BEG_SECTION(GENERATED_TYPE_ENUM_SECTION)
           "#ifndef " GENERATED_TYPE_ENUM_GUARD_NAME CARRIAGE_RETURN
           "#define " GENERATED_TYPE_ENUM_GUARD_NAME CARRIAGE_RETURN
@@ -877,6 +870,13 @@ const char headerFileTemplate[] =
           "#endif //" GENERATED_TYPE_ENUM_GUARD_NAME CARRIAGE_RETURN
           TEMPLATE_END_SECTION(GENERATED_TYPE_ENUM_SECTION)
 
+          TEMPLATE_BEG_SECTION(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION)
+          "#ifndef " GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
+          "#define " GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
+          "typedef " GENERATED_TYPE_SIMPLE_TYPEDEF_TYPEE_TEMPLATE_VAR " " GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_TEMPLATE_VAR ";" CARRIAGE_RETURN
+          "#endif //" GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
+          TEMPLATE_END_SECTION(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION)
+
           TEMPLATE_BEG_SECTION(GENERATED_TYPE_SECTION)
           "#ifndef " GENERATED_TYPE_DECLARE_MACRO_GUARD_NAME CARRIAGE_RETURN
           "#define " GENERATED_TYPE_DECLARE_MACRO_GUARD_NAME CARRIAGE_RETURN
-- 
2.43.0


From b9ead9ee114820d0404eba340e82f0a0d2abbd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 37/55] fix: do not keep the address of a local enum

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index c03557e..f64d123 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2656,11 +2656,13 @@ void CodeGeneratorCTemplate::generateEnum(const TypeItf* p_type)
    * with the typedef coming depending on how things have been parsed.
    */
   generateSimpleTypeDef(p_type);
-  if(m_generatedTypeEnumSection.find(enumType) != m_generatedTypeEnumSection.end())
+  //enumType might be the local copy: it must not be kept
+  const Enum* originalEnumType = p_type->asEnum();
+  if(m_generatedTypeEnumSection.find(originalEnumType) != m_generatedTypeEnumSection.end())
   {
     return;
   }
-  m_generatedTypeEnumSection.emplace(enumType);
+  m_generatedTypeEnumSection.emplace(originalEnumType);
 
   std::string localTypeName { p_type->getName() };
   if(localTypeName.empty())
-- 
2.43.0


From cc4f5c0516c3b85a13ad9b0d123e8703925f0e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 38/55] fix: never destroy the framework's state before the
 mocks that unregister from it

---
 src/easyMockFramework/src/easyMock.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/easyMockFramework/src/easyMock.cpp b/src/easyMockFramework/src/easyMock.cpp
index b78b0f3..1b8f559 100644
--- a/src/easyMockFramework/src/easyMock.cpp
+++ b/src/easyMockFramework/src/easyMock.cpp
@@ -371,7 +371,20 @@ cleanup_dwfl:
 
 }
 
-static EasyMock::EasyMock __attribute__ ((init_priority(101))) easyMock;
+/*
+ * Never destroyed: the mocks unregister themselves from a destructor that can run after the static
+ * objects of this library have been destroyed.
+ */
+union NeverDestroyed
+{
+  NeverDestroyed() : easyMock() {}
+  ~NeverDestroyed() {}
+  EasyMock::EasyMock easyMock;
+};
+
+static NeverDestroyed __attribute__ ((init_priority(101))) neverDestroyed;
+
+static EasyMock::EasyMock &easyMock = neverDestroyed.easyMock;
 
 extern "C" void easyMock_registerMockedFile(const easyMock_mockedFileRegister_t *args)
 {
-- 
2.43.0


From 2e657145c3b4699a8ad747cef37f2858ae739138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 39/55] fix: generate the comparators of anonymous members
 needed by a requested one

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index f64d123..dbd5cb4 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2316,7 +2316,9 @@ void CodeGeneratorCTemplate::generateComposedTypedCompareSection(const Composabl
   }
   bool forceGenerateAll = std::find(std::begin(m_comparatorList), std::end(m_comparatorList), "EasyMock_all_comparators") != std::end(m_comparatorList);
   bool mustGenerate = std::find(std::begin(m_comparatorList), std::end(m_comparatorList), toFind) != std::end(m_comparatorList);
-  if(!forceGenerateAll && !mustGenerate)
+  // An anonymous type declared inside another one cannot be requested by name: the comparator of its parent needs it
+  const bool isNeededByParent = p_composedType->isAnonymous() && p_composedType->isDeclarationEmbeddedInOtherType();
+  if(!forceGenerateAll && !mustGenerate && !isNeededByParent)
   {
     return;
   }
-- 
2.43.0


From f0004c0292f40eebeb930a28aa17e59cce656169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:00 +0000
Subject: [PATCH 40/55] fix: define the anonymous enum in the scope of the
 comparator

---
 .../include/CodeGeneratorCTemplate.h            |  2 ++
 .../CodeGeneratorCTemplate.cpp                  | 17 +++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index 432af03..2c3a464 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -6,6 +6,7 @@
 #ifndef CODEGENERATORCTEMPLATE_H
 #define CODEGENERATORCTEMPLATE_H
 
+#include <set>
 #include <CodeGeneratorItf.h>
 #include <ctemplate/template.h>
 #include <string>
@@ -112,6 +113,7 @@ private:
   ctemplate::TemplateDictionary *m_rootDictionary;
   ctemplate::TemplateDictionary *m_generateMockedTypeSection;
   EasyMock::HashablePointerUnorderedMap<const TypeItf*, const TypedefType*> m_typeToTypedef;
+  std::set<std::string> m_enumDefinedInComparator;
   EasyMock::HashablePointerUnorderedSet<const TypeItf*> m_generateTypes;
   EasyMock::HashablePointerUnorderedSet<const TypeItf*> m_generateForwardTypes;
   EasyMock::HashablePointerUnorderedSet<const TypedefType*> m_generatedTypeTypedDefSection;
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index dbd5cb4..49f0ea9 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2256,6 +2256,22 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
         const ComposableField* curCompField = dynamic_cast<const ComposableField*>(&curField);
         ctemplate::TemplateDictionary *curFieldValDict = curFieldDict->AddSectionDictionary(COMPOSABLE_TYPE_DECLARE_TYPE_SECTION);
         std::string declaredString = getDeclaratorString(curField);
+        const Enum* enumType = getRawType(fieldType)->asEnum();
+        if(!m_generateUsedType && enumType && enumType->isAnonymous() && !fieldType->containsTypeDef())
+        {
+          // The anonymous enum has no name outside of the comparator: it is defined within its scope.
+          const std::string enumName { getAnonymousName(enumType) };
+          if(m_enumDefinedInComparator.insert(enumName).second)
+          {
+            std::string body { " { " };
+            for(const auto& enumVal : enumType->getValues())
+            {
+              body.append(enumVal.second).append(" = ").append(std::to_string(enumVal.first)).append(", ");
+            }
+            body.append("}");
+            declaredString.insert(declaredString.find(enumName) + enumName.size(), body);
+          }
+        }
         curFieldValDict->SetValue(TYPE_DECLARATION_VAR, declaredString);
         const std::string& curFieldName = curField.getName();
         std::string fieldName = curFieldName;
@@ -2346,6 +2362,7 @@ void CodeGeneratorCTemplate::generateComposedTypedCompareSection(const Composabl
   //Take care of generating the declaration of the anonymous type within the scope of the compare function
   if(p_composedType->isAnonymous() && p_composedType->isDeclarationEmbeddedInOtherType())
   {
+    m_enumDefinedInComparator.clear();
     generateDeclarationOfComposableType(compareDict, p_composedType, -1, CodeGeneratorCTemplate::GenerateDeclarationOfComposableTypeOrigin::GENERATE_COMPARE_FUNCTION);
   }
 
-- 
2.43.0


From e09136f31ef6a1e7a08fd022d31c6fbc5f8a4365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:40 +0000
Subject: [PATCH 41/55] fix: give a comparator the same name whatever the path
 that leads to its type

---
 .../include/CodeGeneratorCTemplate.h          |  8 ++--
 .../CodeGeneratorCTemplate.cpp                | 40 ++++++-------------
 2 files changed, 16 insertions(+), 32 deletions(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index 2c3a464..c44650a 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -78,10 +78,10 @@ private:
   void generateFunctionAttributes(const std::shared_ptr<const FunctionDeclaration> &f, ctemplate::TemplateDictionary *functionSectionDict);
   void generateVariadicSection(ctemplate::TemplateDictionary *p_functionSectionDict, const Function *p_function);
   void generateFunctionParamSection(ctemplate::TemplateDictionary *dict, const Parameter::Vector& functionParam);
-  //p_uniquePrepend and p_declPrepend must never become a reference because the string appended in recursive calls must reverted when the recursive call returns
-  void generateAllFieldStructCompare(ctemplate::TemplateDictionary *p_compareFunDict, const ComposableType *p_composedType, std::string p_uniquePrepend, std::string p_declPrepend);
-  void generateBodyStructCompare(ctemplate::TemplateDictionary *p_compareFunDict, const char* p_sectionToAdd, const ComposableType *p_structType, const ComposableFieldItf *p_curField, const ComposableFieldItf *p_previousField, std::string p_uniquePrepend, std::string p_declPrepend);
-  void generateComposedTypedCompareSection(const ComposableType *p_composedType, std::string p_uniquePrepend, std::string p_declPrepend);
+  //p_declPrepend must never become a reference because the string appended in recursive calls must reverted when the recursive call returns
+  void generateAllFieldStructCompare(ctemplate::TemplateDictionary *p_compareFunDict, const ComposableType *p_composedType, std::string p_declPrepend);
+  void generateBodyStructCompare(ctemplate::TemplateDictionary *p_compareFunDict, const char* p_sectionToAdd, const ComposableType *p_structType, const ComposableFieldItf *p_curField, const ComposableFieldItf *p_previousField, std::string p_declPrepend);
+  void generateComposedTypedCompareSection(const ComposableType *p_composedType, std::string p_declPrepend);
   ctemplate::TemplateDictionary* generateDeclarationOfComposableType(ctemplate::TemplateDictionary *compareDir, const ComposableType *p_composedType, int p_level, GenerateDeclarationOfComposableTypeOrigin p_origin);
   void generateDeclarationOfUsedType(ctemplate::TemplateDictionary* p_parentDict, const TypeItf* p_type, bool p_generateIncomplete);
   bool generateCodeToFile(const std::string &outDir, const std::string &filename, const std::string &extension, const std::string &generatedCode);
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 49f0ea9..55f2056 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1637,9 +1637,8 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
     const ComposableType* composableType = rawType->asComposableType();
     if(composableType && !rawType->isImplicit())
     {
-      std::string prepend {};
       std::string declare {};
-      generateComposedTypedCompareSection(composableType, prepend, declare);
+      generateComposedTypedCompareSection(composableType, declare);
     }
     functionParamSection->SetValue(FUNCTION_PARAM_TYPE, argType);
     functionParamSection->SetValue(FUNCTION_PARAM_DEREFERENCED_TYPE, getDereferencedType(*paramType).getFullDeclarationName());
@@ -1813,7 +1812,7 @@ void CodeGeneratorCTemplate::generateFieldCmp(std::string& p_condition, const Co
   }
 }
 
-void CodeGeneratorCTemplate::generateBodyStructCompare(ctemplate::TemplateDictionary *p_compareFunDict, const char* p_ctemplateDictionarySectionToAdd, const ComposableType *p_parentComposedType, const ComposableFieldItf *p_curField, const ComposableFieldItf *p_previousField, std::string p_uniquePrepend, std::string p_declPrepend)
+void CodeGeneratorCTemplate::generateBodyStructCompare(ctemplate::TemplateDictionary *p_compareFunDict, const char* p_ctemplateDictionarySectionToAdd, const ComposableType *p_parentComposedType, const ComposableFieldItf *p_curField, const ComposableFieldItf *p_previousField, std::string p_declPrepend)
 {
   auto addCtemplateDictionarySubSection = [](ctemplate::TemplateDictionary *p_compareFunDict, const char* p_ctemplateDictionarySectionToAdd, const ComposableFieldItf *p_curField)
   {
@@ -1838,14 +1837,13 @@ void CodeGeneratorCTemplate::generateBodyStructCompare(ctemplate::TemplateDictio
     const bool isFieldAnonymous = p_curField->isAnonymous();
     if(isFieldAnonymous)
     {
-      p_uniquePrepend.push_back('_');
       if(p_declPrepend.back() == ':')
       {
         p_declPrepend.append("<anonymous>");
       }
       p_declPrepend.append("::");
       assert(curFieldComposableType);
-      generateAllFieldStructCompare(p_compareFunDict, curFieldComposableType, p_uniquePrepend, p_declPrepend);
+      generateAllFieldStructCompare(p_compareFunDict, curFieldComposableType, p_declPrepend);
     }
     else
     {
@@ -1870,11 +1868,6 @@ void CodeGeneratorCTemplate::generateBodyStructCompare(ctemplate::TemplateDictio
       ifPreSectionDict->SetValue(STRUCT_COMPARE_PRE_IF_SECTION_VAR_NAME, preFieldVarName.c_str());
       std::string condition {};
       condition.append("cmp_");
-      if(curFieldComposableType && curFieldComposableType->isDeclarationEmbeddedInOtherType() && p_uniquePrepend.size() > 0)
-      {
-        condition.append(p_uniquePrepend);
-        condition.push_back('_');
-      }
       if(curFieldComposableType)
       {
         condition.append(getComparatorName(curFieldComposableType));
@@ -1891,11 +1884,10 @@ void CodeGeneratorCTemplate::generateBodyStructCompare(ctemplate::TemplateDictio
       condition.append(preFieldVarName);
       condition.append("), errorMessage)");
 
-      p_uniquePrepend.push_back('_');
       p_declPrepend.append("::");
       if(curFieldComposableType)
       {
-        generateComposedTypedCompareSection(curFieldComposableType, p_uniquePrepend, p_declPrepend);
+        generateComposedTypedCompareSection(curFieldComposableType, p_declPrepend);
       }
 
       paramSectDict->SetValue(COMPARE_CONDITION, condition);
@@ -2313,7 +2305,7 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
   return anonymousDeclDict;
 }
 
-void CodeGeneratorCTemplate::generateComposedTypedCompareSection(const ComposableType *p_composedType, std::string p_uniquePrepend, std::string p_declPrepend)
+void CodeGeneratorCTemplate::generateComposedTypedCompareSection(const ComposableType *p_composedType, std::string p_declPrepend)
 {
   if(p_composedType->isForwardDeclared())
   {
@@ -2346,14 +2338,6 @@ void CodeGeneratorCTemplate::generateComposedTypedCompareSection(const Composabl
   }
   m_generatedComparator.insert(uniqueName);
 
-  if(p_composedType->isDeclarationEmbeddedInOtherType())
-  {
-    if(!(p_uniquePrepend.size() == 1 && p_uniquePrepend[0] == '_'))
-    {
-      uniqueName = p_uniquePrepend + uniqueName;
-    }
-  }
-
   const std::string& composableTypeName = getMostDefinedName(p_composedType);
   p_declPrepend.append(composableTypeName);
 
@@ -2399,10 +2383,10 @@ void CodeGeneratorCTemplate::generateComposedTypedCompareSection(const Composabl
   compareDict->SetValue(COMPOSED_TYPED_DECL_STRING, constDeclString);
   compareDict->SetValue(COMPOSED_TYPED_UNIQUE_NAME, uniqueName);
 
-  generateAllFieldStructCompare(compareDict, p_composedType, p_uniquePrepend, p_declPrepend);
+  generateAllFieldStructCompare(compareDict, p_composedType, p_declPrepend);
 }
 
-void CodeGeneratorCTemplate::generateAllFieldStructCompare(ctemplate::TemplateDictionary *p_compareFunDict, const ComposableType *p_composedType, std::string p_uniquePrepend, std::string p_declPrepend)
+void CodeGeneratorCTemplate::generateAllFieldStructCompare(ctemplate::TemplateDictionary *p_compareFunDict, const ComposableType *p_composedType, std::string p_declPrepend)
 {
   const auto& vectField = p_composedType->getContainedFields();
   const ComposableFieldItf *prevField = nullptr;
@@ -2410,7 +2394,7 @@ void CodeGeneratorCTemplate::generateAllFieldStructCompare(ctemplate::TemplateDi
   {
     std::visit(overloaded
     {
-      [this, &p_compareFunDict, &p_composedType, &prevField, &p_uniquePrepend, &p_declPrepend](const ComposableField &curComposableField)
+      [this, &p_compareFunDict, &p_composedType, &prevField, &p_declPrepend](const ComposableField &curComposableField)
       {
         const bool isGeneratableField = !curComposableField.isUnboundSpecifiedArray();
         const bool isArray = curComposableField.isBoundSpecifiedArray();
@@ -2420,24 +2404,24 @@ void CodeGeneratorCTemplate::generateAllFieldStructCompare(ctemplate::TemplateDi
           if(hasTypeNonZeroSize)
           {
             generateBodyStructCompare(p_compareFunDict, STRUCT_COMPARE_ARRAY_SECTION, p_composedType,
-                                      &curComposableField, prevField, p_uniquePrepend, p_declPrepend);
+                                      &curComposableField, prevField, p_declPrepend);
           }
           // else we don't generate a check for empty type field like structs without members. It doesn't make sense.
         }
         else if(isGeneratableField)
         {
-          generateBodyStructCompare(p_compareFunDict, STRUCT_COMPARE_PARAM_SECTION, p_composedType, &curComposableField, prevField, p_uniquePrepend, p_declPrepend);
+          generateBodyStructCompare(p_compareFunDict, STRUCT_COMPARE_PARAM_SECTION, p_composedType, &curComposableField, prevField, p_declPrepend);
         }
         //else {???} Since we do not know how many element is in the array, we cannot generate any code for it
         prevField = &curComposableField;
       },
-      [this, &p_compareFunDict, &p_composedType, &prevField, &p_uniquePrepend, &p_declPrepend](const ComposableBitfield &curComposableBitField)
+      [this, &p_compareFunDict, &p_composedType, &prevField, &p_declPrepend](const ComposableBitfield &curComposableBitField)
       {
         const bool isNonAnonymousBitfield = !curComposableBitField.getName().empty();
         if(isNonAnonymousBitfield)
         {
           //simple variable case
-          generateBodyStructCompare(p_compareFunDict, STRUCT_COMPARE_PARAM_SECTION, p_composedType, &curComposableBitField, prevField, p_uniquePrepend, p_declPrepend);
+          generateBodyStructCompare(p_compareFunDict, STRUCT_COMPARE_PARAM_SECTION, p_composedType, &curComposableBitField, prevField, p_declPrepend);
         }
         prevField = &curComposableBitField;
       }
-- 
2.43.0


From 8cc80cb032530df95ed5b7cc05f3305bb2419819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 42/55] fix: report that a generated file could not be written

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp  | 10 ++++++----
 src/easyMockGenerate/src/MainCodeGenerator.cpp         |  6 +++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 55f2056..a77ed61 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2463,16 +2463,18 @@ bool CodeGeneratorCTemplate::generateCodeToFile(const std::string &p_outDir, con
     rv = false;
     goto closeFile;
   }
-  if (std::fprintf(f, "%s", p_generatedCode.c_str()) < 0)
+  if (std::fwrite(p_generatedCode.data(), 1, p_generatedCode.size(), f) != p_generatedCode.size())
   {
-    std::fprintf(stderr, "Error writing into %s: %s", outFilename.c_str(), strerror(errno));
+    std::fprintf(stderr, "Error writing into %s: %s\n\r", outFilename.c_str(), strerror(errno));
     rv = false;
     goto closeFile;
   }
 closeFile:
-  if (f != nullptr)
+  if (f != nullptr && std::fclose(f) != 0 && rv)
   {
-    std::fclose(f);
+    //What is still buffered is written when the file is closed
+    std::fprintf(stderr, "Error writing into %s: %s\n\r", outFilename.c_str(), strerror(errno));
+    rv = false;
   }
 
   return rv;
diff --git a/src/easyMockGenerate/src/MainCodeGenerator.cpp b/src/easyMockGenerate/src/MainCodeGenerator.cpp
index 186124c..43e03df 100644
--- a/src/easyMockGenerate/src/MainCodeGenerator.cpp
+++ b/src/easyMockGenerate/src/MainCodeGenerator.cpp
@@ -17,6 +17,10 @@ bool MainCodeGenerator::generateCode(const std::string &outDir, bool ignoreParse
     fprintf(stderr, "Parsing of %s failed.\n\r", m_filename.c_str());
     return false;
   }
-  m_codeGeneratorItf.generateCode(outDir, m_filename, ctxt);
+  if(!m_codeGeneratorItf.generateCode(outDir, m_filename, ctxt))
+  {
+    fprintf(stderr, "Generating the mock of %s failed.\n\r", m_filename.c_str());
+    return false;
+  }
   return true;
 }
-- 
2.43.0


From bd3a5d32a2583ca4eebdc40a62eefa5665e8db13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 43/55] fix: do not throw when the origin of a function is not
 an existing file

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index ab58c33..a83f9cd 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -151,11 +151,17 @@ public:
       return nullptr;
     }
     std::string originFileFullInfo = func->getLocation().printToString(*m_SM);
-    size_t posColumn = originFileFullInfo.find_first_of(':');
-    std::string originFile = originFileFullInfo.substr(0,posColumn);
-    boost::filesystem::path originCanon = boost::filesystem::canonical(originFile);
+    const clang::SourceLocation expansionLoc = m_SM->getExpansionLoc(func->getLocation());
+    const clang::PresumedLoc presumedLoc = m_SM->getPresumedLoc(expansionLoc);
+    boost::system::error_code originCanonError = boost::system::errc::make_error_code(boost::system::errc::no_such_file_or_directory);
+    boost::filesystem::path originCanon;
+    if(presumedLoc.isValid())
+    {
+      originCanon = boost::filesystem::canonical(presumedLoc.getFilename(), originCanonError);
+    }
 
-    bool isFromMainFile = m_mainFile == originCanon;
+    //A #line directive can name a file which doesn't exist
+    bool isFromMainFile = originCanonError ? m_SM->isWrittenInMainFile(expansionLoc) : m_mainFile == originCanon;
     if(!m_parseIncludedFunctions && !isFromMainFile)
     {
       return nullptr;
-- 
2.43.0


From 4baa8dc2669c465b612372787bc88a9f8773f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:40 +0000
Subject: [PATCH 44/55] fix: report a type that can't be represented instead of
 aborting

---
 .../src/LLVMParser/LLVMParser.cpp             | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index a83f9cd..c85d92f 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -129,8 +129,10 @@ public:
    */
   bool VisitFunctionDecl(clang::FunctionDecl* func)
   {
+    m_currentFunction = func;
+    m_isUnsupportedTypeUsed = false;
     auto f = getFunctionDeclaration(func);
-    if(f)
+    if(f && !m_isUnsupportedTypeUsed)
     {
       f->cacheHash();
       m_ctxt.addElementToMock(std::move(f));
@@ -240,6 +242,8 @@ private:
   const boost::filesystem::path& m_mainFile;
   const IgnoreFunList& m_ignoreFunList;
   bool m_parseIncludedFunctions;
+  const clang::FunctionDecl* m_currentFunction = nullptr;
+  bool m_isUnsupportedTypeUsed = false;
 
   enum ContainerType {
     STRUCT,
@@ -739,9 +743,7 @@ private:
     }
     else
     {
-      std::fprintf(stderr, "Clang type unexpected here. Contact the owner for bug fixing\n\r");
-      clangType.dump();
-      assert(false);
+      type = getFromUnsupportedType(clangType);
     }
     if(clangQualType.isLocalConstQualified())
     {
@@ -757,6 +759,18 @@ private:
     return type;
   }
 
+  /*
+   * The type can't be represented: the function which uses it is reported as an error and isn't mocked.
+   */
+  std::shared_ptr<TypeItf> getFromUnsupportedType(const clang::Type &type)
+  {
+    clang::DiagnosticsEngine& diagnostics = m_context->getDiagnostics();
+    const unsigned diagId = diagnostics.getCustomDiagID(clang::DiagnosticsEngine::Error, "%0 can't be mocked: the type '%1' isn't supported");
+    diagnostics.Report(m_currentFunction->getLocation(), diagId) << m_currentFunction << type.getCanonicalTypeInternal().getAsString();
+    m_isUnsupportedTypeUsed = true;
+    return std::make_shared<CType>(CTYPE_INT);
+  }
+
   std::shared_ptr<TypeItf> getFromBuiltinType(const clang::Type &type, const std::string& nakedDeclString)
   {
     std::shared_ptr<CType> cType = nullptr;
@@ -820,9 +834,7 @@ private:
     }
     else
     {
-      std::fprintf(stderr, "Clang type unexpected here for CTYPE. Contact the owner for bug fixing\n\r");
-      type.dump();
-      assert(false);
+      return getFromUnsupportedType(type);
     }
 
     //Unsigned
-- 
2.43.0


From 73a9b6ca537007f79f99913a1efc691dd38fb6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:17 +0000
Subject: [PATCH 45/55] fix: parse the header as C++ with --mock-cpp

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index c85d92f..b028f2b 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -1386,15 +1386,6 @@ public:
   {
   }
 
-  virtual bool PrepareToExecuteAction(clang::CompilerInstance &CI) override
-  {
-    if(m_parserConfig.forceCpp)
-    {
-      CI.getInvocation().LangOpts->CPlusPlus = 1;
-    }
-    return true;
-  }
-
   virtual std::unique_ptr<clang::ASTConsumer> CreateASTConsumer(clang::CompilerInstance& CI, clang::StringRef file) override
   {
     clang::Preprocessor& PP = CI.getPreprocessor();
@@ -1455,6 +1446,10 @@ CodeParser_errCode LLVMParser::getElementToMockContext(ElementToMockContext& p_c
     toAdd.append(token);
     LLVMExtraArgs.emplace_back(toAdd);
   }
+  if(m_forceCpp)
+  {
+    LLVMExtraArgs.emplace_back("-xc++");
+  }
   clang::tooling::FixedCompilationDatabase db(twineDir, LLVMExtraArgs);
   boost::filesystem::path fullPath = boost::filesystem::canonical(m_filename);
   std::vector<std::string> arRef({fullPath.string()});
-- 
2.43.0


From 2fb2b0020d14980006a170e0d1777dea304f1eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:50 +0000
Subject: [PATCH 46/55] fix: do not try to mock function templates

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index b028f2b..8b672a9 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -129,6 +129,11 @@ public:
    */
   bool VisitFunctionDecl(clang::FunctionDecl* func)
   {
+    if(func->isDependentContext())
+    {
+      //A template isn't a function: there is nothing to mock
+      return true;
+    }
     m_currentFunction = func;
     m_isUnsupportedTypeUsed = false;
     auto f = getFunctionDeclaration(func);
-- 
2.43.0


From c0281064c2b19c9090ef5e4b0052856969ed742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 47/55] fix: do not hash the signatures of member functions
 recursively

---
 src/easyMockGenerate/src/ComposableType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/ComposableType.cpp b/src/easyMockGenerate/src/ComposableType.cpp
index a45fa6f..00b3d04 100644
--- a/src/easyMockGenerate/src/ComposableType.cpp
+++ b/src/easyMockGenerate/src/ComposableType.cpp
@@ -45,8 +45,8 @@ std::size_t ComposableType::getHash() const noexcept
   boost::hash_combine(seed, m_is_forward_declared);
   for(const auto& function : m_functions)
   {
-    //const auto f_ptr = function.lock();
-    boost::hash_combine(seed, *function);
+    //The signature isn't part of the hash because it can use the type itself
+    boost::hash_combine(seed, *function->getName());
   }
 
   return seed;
-- 
2.43.0


From b6dab6f03c6a1fd8e573b0afa919f990fdde6baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 48/55] fix: keep the structs and unions which have member
 functions alive

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 8b672a9..1123d78 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -48,10 +48,10 @@ public:
 
   void addObject(std::shared_ptr<T> newObject)
   {
-    auto newObjectHash = newObject->getHash();
+    //Two objects can be equal: each of them is referred to by the functions it contains
     for(const auto &obj : m_list)
     {
-      if(obj->getHash() == newObjectHash)
+      if(obj == newObject)
       {
         return;
       }
@@ -81,11 +81,12 @@ std::string trim(const std::string &s) {
  * In order to represent the fact that a function belongs to an object,
  * the ClassType objects are stored as weak references into Function object to break the circular dependency.
  * We need to store its shared_ptr instance in a global list to keep the ClassType object alive.
+ * The same goes for the struct and union which have member functions.
  *
  * If we don't store the ClassType object in the function object as weak_ptr, this creates an
  * indirect memory leak.
  */
-UniqueStdSharePtrObjectSet<ClassType> globalListOfClasses;
+UniqueStdSharePtrObjectSet<ComposableType> globalListOfClasses;
 }
 
 struct ParserConfig
@@ -214,6 +215,7 @@ public:
     if(parentData)
     {
       parentData->addFunction(f);
+      globalListOfClasses.addObject(parentData);
     }
     bool isInline = func->isInlined();
     bool doesThisDeclHasABody = func->doesThisDeclarationHaveABody();
@@ -1009,7 +1011,6 @@ private:
       case CLASS:
         auto classType = std::make_shared<ClassType>(typeName, isEmbeddedInOtherType);
         incType = IncompleteType::Type::CLASS;
-        globalListOfClasses.addObject(classType);
         sType = classType;
         break;
     }
-- 
2.43.0


From 3056559b565ae36348f7ab00980ec4b8390cc211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:27 +0000
Subject: [PATCH 49/55] fix: do not mock the C++ functions which can't be
 defined by a mock

---
 .../src/LLVMParser/LLVMParser.cpp             | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 1123d78..4993682 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -22,6 +22,7 @@
 #include <clang/AST/DeclBase.h>
 #include <clang/AST/DeclLookups.h>
 #include <clang/AST/DeclContextInternals.h>
+#include <clang/AST/DeclTemplate.h>
 #include <clang/Frontend/CompilerInstance.h>
 #include <clang/Frontend/FrontendActions.h>
 #include <clang/Tooling/CompilationDatabase.h>
@@ -135,6 +136,10 @@ public:
       //A template isn't a function: there is nothing to mock
       return true;
     }
+    if(m_context->getLangOpts().CPlusPlus && (!isMockableCppFunction(func) || m_mockedCppFunctions.count(func->getCanonicalDecl())))
+    {
+      return true;
+    }
     m_currentFunction = func;
     m_isUnsupportedTypeUsed = false;
     auto f = getFunctionDeclaration(func);
@@ -142,11 +147,26 @@ public:
     {
       f->cacheHash();
       m_ctxt.addElementToMock(std::move(f));
+      m_mockedCppFunctions.insert(func->getCanonicalDecl());
     }
 
     return true;
   }
 
+  /*
+   * The functions which have no name to configure their mock with, and the ones which only the header can define,
+   * aren't mocked.
+   */
+  bool isMockableCppFunction(const clang::FunctionDecl* func)
+  {
+    const auto* parent = clang::dyn_cast<clang::CXXRecordDecl>(func->getParent());
+    return func->getDeclName().isIdentifier() &&
+           !func->isDeleted() &&
+           !func->isInAnonymousNamespace() &&
+           func->getTemplatedKind() == clang::FunctionDecl::TK_NonTemplate &&
+           !(parent && (clang::isa<clang::ClassTemplateSpecializationDecl>(parent) || !parent->getIdentifier()));
+  }
+
   std::shared_ptr<FunctionDeclaration> getFunctionDeclaration(const clang::FunctionDecl* func)
   {
     const std::string funName = getFunctionName(func);
@@ -218,7 +238,8 @@ public:
       globalListOfClasses.addObject(parentData);
     }
     bool isInline = func->isInlined();
-    bool doesThisDeclHasABody = func->doesThisDeclarationHaveABody();
+    //A member function can be defined out of its class by the header
+    bool doesThisDeclHasABody = func->doesThisDeclarationHaveABody() || (m_LO->CPlusPlus && func->hasBody());
     bool isStatic = func->isStatic();
     f->setVariadic(func->isVariadic());
     f->setInlined(isInline);
@@ -246,6 +267,7 @@ private:
   const MockOnlyList& m_mockOnlyList;
   const IgnoreTypeFieldList& m_ignoreTypeFieldList;
   std::unordered_map<std::string, std::shared_ptr<TypeItf>> m_cachedStruct;
+  std::set<const clang::FunctionDecl*> m_mockedCppFunctions;
   const boost::filesystem::path& m_mainFile;
   const IgnoreFunList& m_ignoreFunList;
   bool m_parseIncludedFunctions;
-- 
2.43.0


From 62ef8dd8a32d887a997a2dcbbf5c3083eb728f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:26 +0000
Subject: [PATCH 50/55] fix: generate mocks of C++ functions which compile and
 compare what they are given

---
 .../include/MockedFunction.h                  |  24 ++
 .../include/CodeGeneratorCTemplate.h          |   2 +
 .../include/FunctionDeclaration.h             |  15 ++
 .../CodeGeneratorCTemplate.cpp                | 250 ++++++++++++++----
 .../src/FunctionDeclaration.cpp               |  18 +-
 .../src/LLVMParser/LLVMParser.cpp             |  73 +++--
 6 files changed, 311 insertions(+), 71 deletions(-)

diff --git a/src/easyMockFramework/include/MockedFunction.h b/src/easyMockFramework/include/MockedFunction.h
index 3146a3c..80a429f 100644
--- a/src/easyMockFramework/include/MockedFunction.h
+++ b/src/easyMockFramework/include/MockedFunction.h
@@ -18,6 +18,7 @@
 
 #include <vector>
 #include <string>
+#include <type_traits>
 /*!
  * \brief Struct encapsulating the data needed by a mocked C++ function.
  */
@@ -145,6 +146,29 @@ easyMock_bool MockedFunction_verify(MockedCppFunction<T> *mf)
   return true;
 }
 
+template<typename T>
+void MockedFunction_copyOutput(T* dst, const T* src, std::true_type /*isAssigned*/)
+{
+  *dst = *src;
+}
+
+template<typename T>
+void MockedFunction_copyOutput(T* dst, const T* src, std::false_type /*isAssigned*/)
+{
+  easyMock_memcpy((void*)dst, (const void*)src, sizeof(*dst));
+}
+
+/*!
+ * \brief Sets the object pointed to by an output parameter.
+ *
+ * The object of a class which can't be copied byte by byte (e.g. a std::string) must be assigned.
+ */
+template<typename T>
+void MockedFunction_setOutput(T* dst, const T* src)
+{
+  MockedFunction_copyOutput(dst, src, std::integral_constant<bool, !std::is_trivially_copyable<T>::value && std::is_copy_assignable<T>::value>());
+}
+
 extern "C" {
 #endif
 
diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index c44650a..85e387c 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -76,6 +76,7 @@ private:
   void fillInMacroDefinition(const ElementToMockContext& p_elem);
   void generateFunctionSection(ctemplate::TemplateDictionary* p_parentDictionary, const std::shared_ptr<const FunctionDeclaration> &f);
   void generateFunctionAttributes(const std::shared_ptr<const FunctionDeclaration> &f, ctemplate::TemplateDictionary *functionSectionDict);
+  std::string getFunctionId(const std::string& p_functionName);
   void generateVariadicSection(ctemplate::TemplateDictionary *p_functionSectionDict, const Function *p_function);
   void generateFunctionParamSection(ctemplate::TemplateDictionary *dict, const Parameter::Vector& functionParam);
   //p_declPrepend must never become a reference because the string appended in recursive calls must reverted when the recursive call returns
@@ -109,6 +110,7 @@ private:
   const TypeItf* getMostPointedType(const TypeItf* p_type);
 
   std::unordered_set<std::string> m_generatedComparator;
+  std::unordered_set<std::string> m_functionIds;
   unsigned int m_nbUnamedParam;
   ctemplate::TemplateDictionary *m_rootDictionary;
   ctemplate::TemplateDictionary *m_generateMockedTypeSection;
diff --git a/src/easyMockGenerate/include/FunctionDeclaration.h b/src/easyMockGenerate/include/FunctionDeclaration.h
index 510de1b..3ad6cef 100644
--- a/src/easyMockGenerate/include/FunctionDeclaration.h
+++ b/src/easyMockGenerate/include/FunctionDeclaration.h
@@ -76,6 +76,20 @@ public:
    */
   std::shared_ptr<const Namespace> getNamespace() const;
 
+  /*!
+   * \brief Returns what follows the parameters in the declaration of a C++ function e.g. " noexcept".
+   *
+   * The const qualifier of a member function isn't included (see ::Function::isClassConst()).
+   */
+  const std::string& getQualifiers() const noexcept;
+
+  /*!
+   * \brief Sets what follows the parameters in the declaration of a C++ function.
+   *
+   * \see getQualifiers() const
+   */
+  void setQualifiers(std::string p_qualifiers) noexcept;
+
   virtual ~FunctionDeclaration();
   static const FunctionDeclaration& toFunctionDeclaration(const ElementToMock& elem)
   {
@@ -85,6 +99,7 @@ private:
   bool m_doesThisDeclarationHasBody;
   std::size_t m_cachedHash;
   std::shared_ptr<const Namespace> m_namespace;
+  std::string m_qualifiers;
 };
 
 #endif /* FUNCTIONDECLARATION_H */
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index a77ed61..08f9bd5 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -4,6 +4,7 @@
  */
 #include <cstdio>
 #include <algorithm>
+#include <cctype>
 #include <cstring>
 #include "CodeGeneratorCTemplate.h"
 #include <boost/filesystem.hpp>
@@ -58,6 +59,8 @@
 #define FUNCTION_PARAM_PTR_SECTION "FUNCTION_PARAM_PTR_SECTION"
 #define FUNCTION_VOID_PTR_OUT_SECTION "FUNCTION_VOID_PTR_OUT_SECTION"
 #define FUNCTION_NON_VOID_PTR_OUT_SECTION "FUNCTION_NON_VOID_PTR_OUT_SECTION"
+#define FUNCTION_COPY_OUT_SECTION "FUNCTION_COPY_OUT_SECTION"
+#define FUNCTION_ASSIGN_OUT_SECTION "FUNCTION_ASSIGN_OUT_SECTION"
 #define COMPOSED_TYPE_COMPARE_SECTION "COMPOSED_TYPE_COMPARE_SECTION"
 #define STRUCT_COMPARE_PRE_IF_SECTION "STRUCT_COMPARE_PRE_IF_SECTION"
 #define STRUCT_COMPARE_PRE_IF_SECTION_VAR_NAME "STRUCT_COMPARE_PRE_IF_SECTION_VAR_NAME"
@@ -77,7 +80,6 @@
 #define FUNCTION_PARAM_TYPE "FUNCTION_PARAM_TYPE"
 #define FUNCTION_PARAM_NON_QUALIFIED_TYPE "FUNCTION_PARAM_NON_QUALIFIED_TYPE"
 #define FUNCTION_PARAM_DEREFERENCED_TYPE "FUNCTION_PARAM_DEREFERENCED_TYPE"
-#define PARAMETER_RAW_TYPE "PARAMETER_RAW_TYPE"
 #define FUNCTION_PARAM_NAME "TYPEDEF_PARAM_NAME"
 #define FUNCTION_MATCHER_PARAM_NAME "FUNCTION_MATCHER_PARAM_NAME"
 #define FUNCTION_RETURN_VALUE_PARAM_SECTION "FUNCTION_RETURN_VALUE_PARAM_SECTION"
@@ -89,6 +91,8 @@
 
 #define FUNCTION_CLASS_NAME_VAR "FUNCTION_CLASS_NAME_VAR"
 #define FUNCTION_CLASS_NAME TEMPLATE_VAR(FUNCTION_CLASS_NAME_VAR)
+#define FUNCTION_CLASS_TYPE_VAR "FUNCTION_CLASS_TYPE_VAR"
+#define FUNCTION_CLASS_TYPE TEMPLATE_VAR(FUNCTION_CLASS_TYPE_VAR)
 #define IS_FUNCTION_CLASS_NAME "IS_FUNCTION_CLASS_NAME"
 
 #define REFERENCE_MEMBER_SECTION "REFERENCE_MEMBER_SECTION"
@@ -99,8 +103,12 @@
 #define IS_FUNCTION_CLASS_CONST "IS_FUNCTION_CLASS_CONST"
 
 #define FUNCTION_NAME_UPPER "FUNCTION_NAME_UPPER"
+#define FUNCTION_ID_VAR "FUNCTION_ID_VAR"
+#define FUNCTION_QUALIFIERS_VAR "FUNCTION_QUALIFIERS_VAR"
+#define FUNCTION_SCOPE_VAR "FUNCTION_SCOPE_VAR"
 #define FUNCTION_MATCHER_LIST_SECTION "FUNCTION_MATCHER_LIST_SECTION"
 #define FUNCTION_PARAM_LIST_SECTION "FUNCTION_PARAM_LIST_SECTION"
+#define FUNCTION_NO_PARAM_SECTION "FUNCTION_NO_PARAM_SECTION"
 #define FUNCTION_PARAM_PTR_LIST_SECTION "FUNCTION_PARAM_PTR_LIST_SECTION"
 #define NON_TYPED_DEF_COMPOSED_TYPE_SECTION "NON_TYPED_DEF_COMPOSED_TYPE_SECTION"
 
@@ -258,11 +266,16 @@
 #define PARAMETER_TYPE TEMPLATE_VAR(FUNCTION_PARAM_TYPE)
 #define PARAMETER_NON_QUALIFIED_TYPE TEMPLATE_VAR(FUNCTION_PARAM_NON_QUALIFIED_TYPE)
 #define PARAMETER_DEREFERENCED_TYPE TEMPLATE_VAR(FUNCTION_PARAM_DEREFERENCED_TYPE)
-#define TEMPLATE_PARAMETER_RAW_TYPE TEMPLATE_VAR(PARAMETER_RAW_TYPE)
 #define FUNCTION_RETURN_VALUE_TYPE TEMPLATE_VAR(FUNCTION_RETURN_VALUE)
 #define FUNCTION_TO_RETURN_VALUE_TYPE TEMPLATE_VAR(FUNCTION_TO_RETURN_VALUE)
 #define FUNCTION_NAME TEMPLATE_VAR(FUNCTION_NAME_VAR)
 #define FUNCTION_ACCESS_SPECIFIER TEMPLATE_VAR(FUNCTION_ACCESS_SPECIFIER_VAR)
+/*!
+ * \brief Name of the function which is unique within the mock.
+ */
+#define FUNCTION_ID TEMPLATE_VAR(FUNCTION_ID_VAR)
+#define FUNCTION_QUALIFIERS TEMPLATE_VAR(FUNCTION_QUALIFIERS_VAR)
+#define FUNCTION_SCOPE TEMPLATE_VAR(FUNCTION_SCOPE_VAR)
 
 #define FUNCTION_NON_QUALIFIED_RETURN_VALUE "FUNCTION_NON_QUALIFIED_RETURN_VALUE"
 #define FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE TEMPLATE_VAR(FUNCTION_NON_QUALIFIED_RETURN_VALUE)
@@ -282,10 +295,6 @@ PARAMETER_TYPE " " PARAMETER_NAME(PREFIX) TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTI
 #define DECLARE_NON_QUALIFIED_PARAMETER(PREFIX) \
 PARAMETER_NON_QUALIFIED_TYPE " " PARAMETER_NAME(PREFIX) TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)
 
-#define DECLARE_REFERENCE_MEMBERS(SPACES, PARAM_NAME, DEREFERENCED_PARAM_TYPE, UNQUALIFIED_DEREFERENCED_PARAM_TYPE) \
-UNQUALIFIED_DEREFERENCED_PARAM_TYPE " default_" PARAM_NAME ";" CARRIAGE_RETURN \
-SPACES "std::reference_wrapper<" DEREFERENCED_PARAM_TYPE "> " PARAM_NAME "{ default_" PARAM_NAME " }"
-
 /*!
  * \brief Helper macro to print all declaration of the parameters of a
  * function to be mocked, a *_expectAndReturn function or *_expectReturnAndOutput case.
@@ -348,7 +357,7 @@ SPACES "std::reference_wrapper<" DEREFERENCED_PARAM_TYPE "> " PARAM_NAME "{ defa
     IF_SECTION_EXISTS(C_ONLY_SECTION, \
     "EasyMock_Matcher ") \
     IF_SECTION_EXISTS(CPP_ONLY_SECTION, \
-    "::EasyMock::EasyMock_Matcher_Cpp<" PARAMETER_TYPE "> ") \
+    "::EasyMock::EasyMock_Matcher_Cpp<" PARAMETER_TYPE TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION) "> ") \
     FUNCTION_PARAM_MATCH_VAR \
     TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION_SEPARATOR)\
       ", " \
@@ -366,10 +375,14 @@ SPACES "std::reference_wrapper<" DEREFERENCED_PARAM_TYPE "> " PARAM_NAME "{ defa
 #define FUNCTION_EXPECT_AND_RETURN_NAME \
 IF_SECTION_EXISTS(C_ONLY_SECTION, FUNCTION_NAME "_") "ExpectAndReturn("
 
+/*!
+ * \brief Separates the instance from the parameters, or from the value to return when there are none.
+ */
+#define INSTANCE_SEPARATOR \
+IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") IF_SECTION_EXISTS(FUNCTION_NO_PARAM_SECTION, IF_RETURN_VALUE(", "))
+
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_PARAM \
-IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "::" FUNCTION_CLASS_NAME "* instance" \
-                  IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", ") \
-                  ) \
+IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_TYPE "* instance" INSTANCE_SEPARATOR) \
 FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_RETURN_VALUE(IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_TO_RETURN_VALUE_TYPE " to_return" TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)) IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_MATCHER_LIST
 
 #define FUNCTION_EXPECT_AND_RETURN_SIGNATURE \
@@ -379,7 +392,7 @@ FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_RETURN_VALUE(IF_SECTION_EXIST
 IF_SECTION_EXISTS(C_ONLY_SECTION, FUNCTION_NAME "_") "ExpectReturnAndOutput"
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME \
-FUNCTION_NAME "_ExpectReturnAndOutput_common"
+FUNCTION_ID "_ExpectReturnAndOutput_common"
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_SIGNATURE_PARAM \
 FUNCTION_EXPECT_RETURN_AND_OUTPUT_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_PARAM_LIST(FUNCTION_PARAM_PTR_SECTION, MOCK_OUT_PREFIX)
@@ -412,13 +425,13 @@ MOCK_FRAMEWORK_NAME "_verifyAllMocksInThisHeader"
 "static easyMock_bool " VERIFY_ALL_MOCK_FUNCTION_NAME "()"
 
 #define FUNCTION_MOCK_DATA_TYPE \
-FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_data"
+"_" FUNCTION_ID "_data"
 
 #define FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE \
-FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_returnValue"
+"_" FUNCTION_NAME "_returnValue"
 
 #define FUNCTION_MOCK_DATA_CUR_MATCH_VAR \
-FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_match_" PARAMETER_NAME("")
+"_" FUNCTION_NAME "_match_" PARAMETER_NAME("")
 
 #define CURRENT_DATA_CALL "currentDataCall"
 #define CURRENT_DATA_CALL_MEMBER(member) CURRENT_DATA_CALL "." member
@@ -427,13 +440,17 @@ FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_match_" PARAMETER_NAME("")
 #define MOCKED_DATA "mockedData"
 #define MOCKED_DATA_MEMBER(member) MOCKED_DATA "." member
 
-#define INSIDE_CLASS_FUNCTION_DECLARATION FUNCTION_ACCESS_SPECIFIER ": " FUNCTION_RETURN_VALUE_TYPE " " FUNCTION_NAME FUNCTION_PARAMETERS IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const") ";"
+#define INSIDE_CLASS_FUNCTION_DECLARATION FUNCTION_ACCESS_SPECIFIER ": " FUNCTION_RETURN_VALUE_TYPE " " FUNCTION_NAME FUNCTION_PARAMETERS IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const") FUNCTION_QUALIFIERS ";"
 
 #define FUNCTION_PARAMETERS "("  FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_SECTION_EXISTS(VARIADIC_SECTION, VARIADIC_TEMPLATE_VAR) ")"
-#define TEMPLATE_FUNCTION_PROTOTYPE FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
+#define TEMPLATE_FUNCTION_PROTOTYPE FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const") FUNCTION_QUALIFIERS
 #define TEMPLATE_FUNCTION_TO_BE_MOCKED FUNCTION_ATTRIBUTE_DECLARATION_LIST TEMPLATE_FUNCTION_PROTOTYPE
+/*!
+ * \brief Name given to the function in the errors. It differs for each mocked function.
+ */
+#define TEMPLATE_FUNCTION_NAME_IN_ERROR FUNCTION_RETURN_VALUE_TYPE " " FUNCTION_SCOPE IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const") FUNCTION_QUALIFIERS
 #define MOCKED_FUN_CLASS(F_NAME) "mocked_" F_NAME
-#define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_NAME)
+#define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_ID)
 
 #define COMPOSED_TYPED_COMPARE_SECTION_DECL_NAME_VAR TEMPLATE_VAR(COMPOSED_TYPED_DECL_STRING)
 #define COMPOSED_TYPED_COMPARE_SECTION_UNIQUE_NAME_VAR TEMPLATE_VAR(COMPOSED_TYPED_UNIQUE_NAME)
@@ -489,8 +506,10 @@ const char templateText[] =
         "#include <MockedFunction.h>" CARRIAGE_RETURN
         "#include <cstring.h>" CARRIAGE_RETURN
         IF_SECTION_EXISTS(CPP_ONLY_SECTION,
+        "#include <functional>" CARRIAGE_RETURN
+        "#include <memory>" CARRIAGE_RETURN
         "#include <sstream>" CARRIAGE_RETURN
-        "#include <tuple>" CARRIAGE_RETURN
+        "#include <type_traits>" CARRIAGE_RETURN
         )
         CARRIAGE_RETURN
         "#include \"" MOCK_FRAMEWORK_NAME "_" TEMPLATE_VAR(MOCKED_HEADER_FILENAME) "\"" CARRIAGE_RETURN
@@ -563,14 +582,16 @@ const char templateText[] =
 
         TEMPLATE_BEG_SECTION(FUNCTION_SECTION)
         GENERATE_COMMENT CARRIAGE_RETURN
+        //The data of the functions having the same name in other mocks are other types
+        IF_SECTION_EXISTS(CPP_ONLY_SECTION, "namespace" CARRIAGE_RETURN "{" CARRIAGE_RETURN)
         IF_SECTION_EXISTS(C_ONLY_SECTION, "typedef ")
         "struct " IF_SECTION_EXISTS(CPP_ONLY_SECTION, FUNCTION_MOCK_DATA_TYPE) " {" CARRIAGE_RETURN
         IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME,
-          "    ::" FUNCTION_CLASS_NAME "* instance;" CARRIAGE_RETURN
+          "    " FUNCTION_CLASS_TYPE "* instance;" CARRIAGE_RETURN
         )
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION)
         IF_SECTION_EXISTS(REFERENCE_MEMBER_SECTION,
-          "    " DECLARE_REFERENCE_MEMBERS("    ", PARAMETER_NAME(""), PARAMETER_DEREFERENCED_TYPE, TEMPLATE_PARAMETER_RAW_TYPE) "; // Reference member section" CARRIAGE_RETURN
+          "    " PARAMETER_DEREFERENCED_TYPE " *" PARAMETER_NAME("") "; // Reference member section" CARRIAGE_RETURN
         )
         IF_SECTION_EXISTS(REGULAR_MEMBER_SECTION,
           "    " DECLARE_NON_QUALIFIED_PARAMETER("") "; // Regular member section" CARRIAGE_RETURN
@@ -579,28 +600,29 @@ const char templateText[] =
           "    EasyMock_Matcher " FUNCTION_MOCK_DATA_CUR_MATCH_VAR ";"
         )
         IF_SECTION_EXISTS(CPP_ONLY_SECTION,
-          "    ::EasyMock::EasyMock_Matcher_Cpp<" PARAMETER_TYPE "> " FUNCTION_MOCK_DATA_CUR_MATCH_VAR ";"
+          "    ::EasyMock::EasyMock_Matcher_Cpp<" PARAMETER_TYPE TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION) "> " FUNCTION_MOCK_DATA_CUR_MATCH_VAR ";"
         )
         CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_PARAM_SECTION)
         IF_RETURN_VALUE(
-          IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION, "    " DECLARE_REFERENCE_MEMBERS("    ", FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE, FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE, FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE)  "; // Reference return section")
+          IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION, "    " FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE " *" FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE "; // Reference return section")
           IF_SECTION_EXISTS(REGULAR_RETURN_SECTION, "    " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " " FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION) "; // Regular return section")
           CARRIAGE_RETURN
         )
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_PTR_SECTION)
-        "    " DECLARE_PARAMETER(MOCK_OUT_PREFIX) ";" CARRIAGE_RETURN
+        "    " DECLARE_NON_QUALIFIED_PARAMETER(MOCK_OUT_PREFIX) ";" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(FUNCTION_VOID_PTR_OUT_SECTION)
         "    easyMock_size_t " PARAMETER_OUT_SIZE_VAR ";" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_VOID_PTR_OUT_SECTION)
         TEMPLATE_END_SECTION(FUNCTION_PARAM_PTR_SECTION)
         "}" IF_SECTION_EXISTS(C_ONLY_SECTION, " " FUNCTION_MOCK_DATA_TYPE) ";" CARRIAGE_RETURN
+        IF_SECTION_EXISTS(CPP_ONLY_SECTION, "} // namespace" CARRIAGE_RETURN)
         CARRIAGE_RETURN
         "static " FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_SIGNATURE ";" CARRIAGE_RETURN
         IF_SECTION_EXISTS(C_ONLY_SECTION, "static MockedFunction " TEMPLATE_MOCKED_FUN_CLASS ";" CARRIAGE_RETURN)
         IF_SECTION_EXISTS(CPP_ONLY_SECTION, "static MockedCppFunction<" FUNCTION_MOCK_DATA_TYPE "> " TEMPLATE_MOCKED_FUN_CLASS ";" CARRIAGE_RETURN)
         IF_RETURN_VALUE(
-          "static " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " dummyRes_" FUNCTION_NAME TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)
+          "static " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " dummyRes_" FUNCTION_ID TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)
           IF_SECTION_EXISTS(CPP_ONLY_SECTION, "{}")
           ";"
           CARRIAGE_RETURN
@@ -614,11 +636,13 @@ const char templateText[] =
         CARRIAGE_RETURN
         IF_RETURN_VALUE(
           IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION,
-              "    std::reference_wrapper<" FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE "> default_res { dummyRes_" FUNCTION_NAME " };" CARRIAGE_RETURN
+              "    std::reference_wrapper<" FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE "> default_res { dummyRes_" FUNCTION_ID " };" CARRIAGE_RETURN
           )
           IF_SECTION_EXISTS(REGULAR_RETURN_SECTION,
-              "    " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " default_res" TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) ";" CARRIAGE_RETURN
-              "    easyMock_memcpy((void*)&default_res, (void*)&dummyRes_" FUNCTION_NAME ", sizeof(default_res));" CARRIAGE_RETURN
+              "    " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " default_res" TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION)
+              IF_SECTION_EXISTS(CPP_ONLY_SECTION, " = dummyRes_" FUNCTION_ID)
+              ";" CARRIAGE_RETURN
+              IF_SECTION_EXISTS(C_ONLY_SECTION, "    easyMock_memcpy((void*)&default_res, (void*)&dummyRes_" FUNCTION_ID ", sizeof(default_res));" CARRIAGE_RETURN)
           )
           CARRIAGE_RETURN
         )
@@ -664,7 +688,7 @@ const char templateText[] =
         "    {" CARRIAGE_RETURN
         "        std::ostringstream errorMessage{};" CARRIAGE_RETURN
         "        auto& curCallVal = " PARAMETER_NAME("") ";" CARRIAGE_RETURN
-        "        auto& expectedCallVal = " CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME("")) ";" CARRIAGE_RETURN
+        "        auto& expectedCallVal = " IF_SECTION_EXISTS(REFERENCE_MEMBER_SECTION, "*") CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME("")) ";" CARRIAGE_RETURN
         "        auto& matcher = " CURRENT_DATA_CALL_MEMBER(FUNCTION_MOCK_DATA_CUR_MATCH_VAR) ";" CARRIAGE_RETURN
         "        bool error = matcher(curCallVal, expectedCallVal, \"" PARAMETER_NAME("") "\", errorMessage);" CARRIAGE_RETURN
         "        if(error)" CARRIAGE_RETURN
@@ -675,7 +699,7 @@ const char templateText[] =
         )
         CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_PARAM_SECTION)
-        IF_RETURN_VALUE("    default_res = currentDataCall." FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE ";" CARRIAGE_RETURN)
+        IF_RETURN_VALUE("    default_res = " IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION, "*") "currentDataCall." FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE ";" CARRIAGE_RETURN)
         CARRIAGE_RETURN
         "    CSTRING_AUTOCLEAN(currentCall) = easyMock_popCurrentCall();" CARRIAGE_RETURN
         "    if(checkCallsOrder)" CARRIAGE_RETURN
@@ -690,7 +714,8 @@ const char templateText[] =
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_PTR_SECTION)
         "    if(" CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME(MOCK_OUT_PREFIX)) ")" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
-        "        easyMock_memcpy((void*)" PARAMETER_NAME("") ", (void*)" CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME(MOCK_OUT_PREFIX)) ", " IF_SECTION_EXISTS(FUNCTION_VOID_PTR_OUT_SECTION, CURRENT_DATA_CALL_MEMBER(PARAMETER_OUT_SIZE_VAR)) IF_SECTION_EXISTS(FUNCTION_NON_VOID_PTR_OUT_SECTION, "sizeof(*" PARAMETER_NAME("") ")" ) ");" CARRIAGE_RETURN
+        IF_SECTION_EXISTS(FUNCTION_COPY_OUT_SECTION, "        easyMock_memcpy((void*)" PARAMETER_NAME("") ", (void*)" CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME(MOCK_OUT_PREFIX)) ", " IF_SECTION_EXISTS(FUNCTION_VOID_PTR_OUT_SECTION, CURRENT_DATA_CALL_MEMBER(PARAMETER_OUT_SIZE_VAR)) IF_SECTION_EXISTS(FUNCTION_NON_VOID_PTR_OUT_SECTION, "sizeof(*" PARAMETER_NAME("") ")" ) ");" CARRIAGE_RETURN)
+        IF_SECTION_EXISTS(FUNCTION_ASSIGN_OUT_SECTION, "        MockedFunction_setOutput(" PARAMETER_NAME("") ", " CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME(MOCK_OUT_PREFIX)) ");" CARRIAGE_RETURN)
         "    }" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_PARAM_PTR_SECTION)
         IF_RETURN_VALUE(CARRIAGE_RETURN "    return default_res;" CARRIAGE_RETURN)
@@ -702,7 +727,7 @@ const char templateText[] =
         FUNCTION_EXPECT_AND_RETURN_SIGNATURE CARRIAGE_RETURN
         "{" CARRIAGE_RETURN
         "    " FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME "("
-                IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", "))
+                IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" INSTANCE_SEPARATOR)
                 FUNCTION_EXPECT_RETURN_COMMON_CALL_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_HARDCODED_PARAM_CALL(FUNCTION_PARAM_PTR_SECTION, "easyMock_null")
               ");" CARRIAGE_RETURN
         "}" CARRIAGE_RETURN
@@ -711,7 +736,7 @@ const char templateText[] =
              FUNCTION_EXPECT_RETURN_AND_OUTPUT_SIGNATURE CARRIAGE_RETURN
              "{" CARRIAGE_RETURN
              "    " FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME "("
-                      IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", "))
+                      IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" INSTANCE_SEPARATOR)
                       FUNCTION_EXPECT_RETURN_COMMON_CALL_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_PARAM_CALL(FUNCTION_PARAM_PTR_SECTION, MOCK_OUT_PREFIX)
                   ");" CARRIAGE_RETURN
              "}" CARRIAGE_RETURN
@@ -725,8 +750,11 @@ const char templateText[] =
             "    " MOCKED_DATA_MEMBER("instance") " = instance;" CARRIAGE_RETURN
         )
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION)
-        IF_SECTION_EXISTS(REGULAR_MEMBER_SECTION, "    easyMock_memcpy((void*)&" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) ", (void*)&" PARAMETER_NAME("") ", sizeof(" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) ")); // normal member section")
-        IF_SECTION_EXISTS(REFERENCE_MEMBER_SECTION, "    " MOCKED_DATA_MEMBER(PARAMETER_NAME("")) " = " PARAMETER_NAME("") "; // Reference member section")
+        IF_SECTION_EXISTS(REGULAR_MEMBER_SECTION,
+          IF_SECTION_EXISTS(C_ONLY_SECTION, "    easyMock_memcpy((void*)&" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) ", (void*)&" PARAMETER_NAME("") ", sizeof(" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) ")); // normal member section")
+          IF_SECTION_EXISTS(CPP_ONLY_SECTION, "    " MOCKED_DATA_MEMBER(PARAMETER_NAME("")) " = " PARAMETER_NAME("") "; // normal member section")
+        )
+        IF_SECTION_EXISTS(REFERENCE_MEMBER_SECTION, "    " MOCKED_DATA_MEMBER(PARAMETER_NAME("")) " = std::addressof(" PARAMETER_NAME("") "); // Reference member section")
         CARRIAGE_RETURN
         "    " MOCKED_DATA_MEMBER(FUNCTION_MOCK_DATA_CUR_MATCH_VAR) " = " FUNCTION_PARAM_MATCH_VAR ";" CARRIAGE_RETURN
         CARRIAGE_RETURN
@@ -743,7 +771,7 @@ const char templateText[] =
         CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_PARAM_PTR_SECTION)
 
-        IF_RETURN_VALUE("    " MOCKED_DATA_MEMBER(FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE) " = to_return;" CARRIAGE_RETURN CARRIAGE_RETURN)
+        IF_RETURN_VALUE("    " MOCKED_DATA_MEMBER(FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE) " = " IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION, "std::addressof(to_return)") IF_SECTION_EXISTS(REGULAR_RETURN_SECTION, "to_return") ";" CARRIAGE_RETURN CARRIAGE_RETURN)
         "    MockedFunction_addExpectedCall(&" TEMPLATE_MOCKED_FUN_CLASS ", &mockedData);" CARRIAGE_RETURN
         "    easyMock_addCall(MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "));" CARRIAGE_RETURN
         "}" CARRIAGE_RETURN
@@ -761,7 +789,7 @@ const char templateText[] =
         FUNCTION_INIT_ALL_MOCK_SIGNATURE CARRIAGE_RETURN
         "{" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(FUNCTION_SECTION)
-        "    MockedFunction_init(&" TEMPLATE_MOCKED_FUN_CLASS ", \"" TEMPLATE_FUNCTION_PROTOTYPE "\", sizeof(" FUNCTION_MOCK_DATA_TYPE ") );" CARRIAGE_RETURN
+        "    MockedFunction_init(&" TEMPLATE_MOCKED_FUN_CLASS ", \"" TEMPLATE_FUNCTION_NAME_IN_ERROR "\", sizeof(" FUNCTION_MOCK_DATA_TYPE ") );" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_SECTION)
         "}"
         CARRIAGE_RETURN
@@ -961,6 +989,42 @@ const char namespaceEndTemplate[] =
     "} // namespace " NAMESPACE_NAME CARRIAGE_RETURN
     TEMPLATE_INCL_SECTION(NAMESPACE_END_SECTION);
 
+/*
+ * Name of the namespace to prepend to what it contains e.g. ns1::ns2::
+ */
+std::string getScope(const std::shared_ptr<const Namespace>& p_namespace)
+{
+  if(p_namespace->isGlobal())
+  {
+    return "";
+  }
+  return getScope(p_namespace->m_parent) + p_namespace->m_name + "::";
+}
+
+/*
+ * The name of a class, as it is written in the namespace which contains it.
+ *
+ * The qualified name doesn't contain the inline namespaces.
+ */
+std::string removeScope(const std::string& p_qualifiedName, const std::shared_ptr<const Namespace>& p_namespace)
+{
+  if(p_namespace->isGlobal())
+  {
+    return p_qualifiedName.substr(2);
+  }
+  const std::string name = "::" + removeScope(p_qualifiedName, p_namespace->m_parent);
+  const std::string prefix = "::" + p_namespace->m_name + "::";
+  return name.compare(0, prefix.size(), prefix) == 0 ? name.substr(prefix.size()) : name.substr(2);
+}
+
+/*
+ * In C++, the mock keeps the parameters and the value to return in variables which it assigns.
+ */
+std::string getAssignableType(const std::string& p_type)
+{
+  return "std::remove_cv<" + p_type + ">::type";
+}
+
 template<class... Ts> struct overloaded : Ts... { using Ts::operator()...; };
 template<class... Ts> overloaded(Ts...) -> overloaded<Ts...>;
 
@@ -1104,6 +1168,19 @@ static const FunctionType* getSpelledOutFunctionType(const TypeItf* p_type)
   return p_type->asFunctionType();
 }
 
+/*!
+ * \brief Returns true if the name of a typedef is part of the type.
+ */
+static bool isTypedefUsed(const TypeItf* p_type)
+{
+  while(p_type->isPointer() || p_type->isReference() || p_type->isQualified())
+  {
+    p_type = p_type->isPointer() ? p_type->asPointer()->getPointedType() :
+        p_type->isReference() ? p_type->asReference()->getPointedType() : p_type->asQualifiedType()->getUnqualifiedType();
+  }
+  return p_type->isTypedDef();
+}
+
 const TypeItf* CodeGeneratorCTemplate::getRawType(const TypeItf* p_type)
 {
   const Pointer* pointerType = p_type->asPointer();
@@ -1192,7 +1269,7 @@ std::string CodeGeneratorCTemplate::getComparatorName(const T* p_composableType)
     const std::string& composableTypeName = p_composableType->getName();
     if(!composableTypeName.empty())
     {
-      comparatorName += composableTypeName;
+      comparatorName += composableTypeName.substr(composableTypeName.rfind(':') + 1);
     }
     else
     {
@@ -1201,7 +1278,7 @@ std::string CodeGeneratorCTemplate::getComparatorName(const T* p_composableType)
   }
   else
   {
-    comparatorName += composableTypeDefName;
+    comparatorName += composableTypeDefName.substr(composableTypeDefName.rfind(':') + 1);
   }
   return comparatorName;
 }
@@ -1325,6 +1402,7 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   m_generateTypes.clear();
   m_generateForwardTypes.clear();
   m_lateDeclaration.clear();
+  m_functionIds.clear();
   m_rootDictionary->SetValue(MOCKED_HEADER_FILENAME, p_mockedHeader);
 
   const auto& fList = p_ctxt.getElementToMock();
@@ -1359,7 +1437,8 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
        * In the case where the used types are generated, it is ok to create a mock for the function
        * since the original header is not used by the mock.
        */
-      bool isDefined = isDefinedByHeader(*fun) || definedFunctions.find(fun->getRawHash()) != definedFunctions.end() ||
+      bool isDefined = isDefinedByHeader(*fun) ||
+          (!m_isCpp && definedFunctions.find(fun->getRawHash()) != definedFunctions.end()) ||
           (!m_isCpp && definedCFunctions.find(*fun->getName()) != definedCFunctions.end());
       if(isDefined && !m_generateUsedType)
       {
@@ -1398,12 +1477,14 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
       {
         continue;
       }
-      std::size_t rawHash = fun->getRawHash();
-      if(generatedElements.find(rawHash) != generatedElements.end())
+      /*
+       * In C++, the parser gives each function once. The functions of other namespaces or classes can have the same
+       * signature.
+       */
+      if(!m_isCpp && !generatedElements.insert(fun->getRawHash()).second)
       {
         continue;
       }
-      generatedElements.insert(rawHash);
       /*
        * In C, a name identifies a function. A function may be declared again with compatible types that are
        * spelled differently e.g. int f(int a); int f(const int a);
@@ -1505,11 +1586,15 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   }
   functionSectionDict->SetValue(ORIGIN_FILE_VAR, p_elemToMock->getOriginFile());
   generateFunctionAttributes(p_elemToMock, functionSectionDict);
+  functionSectionDict->SetValue(FUNCTION_QUALIFIERS_VAR, p_elemToMock->getQualifiers());
   const auto& parentData = p_elemToMock->getParentData();
   if(parentData)
   {
     functionSectionDict->AddSectionDictionary(IS_FUNCTION_CLASS_NAME);
-    functionSectionDict->SetValue(FUNCTION_CLASS_NAME_VAR, parentData->getName());
+    const std::string& className = parentData->getName();
+    const bool isQualified = className.compare(0, 2, "::") == 0;
+    functionSectionDict->SetValue(FUNCTION_CLASS_TYPE_VAR, isQualified ? className : "::" + className);
+    functionSectionDict->SetValue(FUNCTION_CLASS_NAME_VAR, isQualified ? removeScope(className, p_elemToMock->getNamespace()) : className);
     generateDeclarationOfUsedType(p_parentDictionary, parentData.get(), false);
   }
   if(p_elemToMock->isClassConst())
@@ -1518,6 +1603,13 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   }
 
   functionSectionDict->SetValue(FUNCTION_NAME_VAR, *p_elemToMock->getName());
+  if(p_parentDictionary == m_rootDictionary)
+  {
+    const std::string functionId = getFunctionId(*p_elemToMock->getName());
+    functionSectionDict->SetValue(FUNCTION_ID_VAR, functionId);
+    //Another function of the mock has the same name: it may be the one of another namespace
+    functionSectionDict->SetValue(FUNCTION_SCOPE_VAR, functionId != *p_elemToMock->getName() ? getScope(p_elemToMock->getNamespace()) : "");
+  }
   std::string upperString(*p_elemToMock->getName());
   std::transform(upperString.begin(), upperString.end(), upperString.begin(), ::toupper);
   functionSectionDict->SetValue(FUNCTION_NAME_UPPER, upperString);
@@ -1535,7 +1627,9 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   registerTypeDef(rvType);
   generateDeclarationOfUsedType(p_parentDictionary, rvType, false);
   const Pointer *nonQualifiedReturnValuePointer = rvType->unqualify()->asPointer();
-  functionSectionDict->SetValue(FUNCTION_NON_QUALIFIED_RETURN_VALUE, nonQualDereferencedRetTypeStr);
+  const bool isFunctionTypeSpelledOut = nonQualifiedReturnValuePointer && getSpelledOutFunctionType(nonQualifiedReturnValuePointer);
+  functionSectionDict->SetValue(FUNCTION_NON_QUALIFIED_RETURN_VALUE, m_isCpp && !isFunctionTypeSpelledOut ?
+      getAssignableType(getDereferencedType(*rvType).getFullDeclarationName()) : nonQualDereferencedRetTypeStr);
   if(nonQualifiedReturnValuePointer)
   {
     const FunctionType *functionType = getSpelledOutFunctionType(nonQualifiedReturnValuePointer);
@@ -1575,6 +1669,16 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   generateVariadicSection(functionSectionDict, p_elemToMock.get());
 }
 
+std::string CodeGeneratorCTemplate::getFunctionId(const std::string& p_functionName)
+{
+  std::string functionId { p_functionName };
+  for(unsigned int i = 1; !m_functionIds.insert(functionId).second; i++)
+  {
+    functionId = p_functionName + "_" + std::to_string(i);
+  }
+  return functionId;
+}
+
 void CodeGeneratorCTemplate::generateVariadicSection(ctemplate::TemplateDictionary *p_functionSectionDict, const Function *p_function)
 {
   if(!p_function->isVariadic())
@@ -1618,11 +1722,8 @@ void CodeGeneratorCTemplate::generateExtraDecl(ctemplate::TemplateDictionary *di
 void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDictionary *p_functionSectionDict, const Parameter::Vector& p_functionParam)
 {
   bool ptrSectionAdded = false;
-  if (p_functionParam.size() > 0)
-  {
-    //This specific section to show the comma ',' conditionally for the expect and return function generation
-    p_functionSectionDict->AddSectionDictionary(FUNCTION_PARAM_LIST_SECTION);
-  }
+  //These specific sections to show the comma ',' conditionally for the expect and return function generation
+  p_functionSectionDict->AddSectionDictionary(p_functionParam.empty() ? FUNCTION_NO_PARAM_SECTION : FUNCTION_PARAM_LIST_SECTION);
   for (const auto& fParam: p_functionParam)
   {
     ctemplate::TemplateDictionary* functionParamSection = p_functionSectionDict->AddSectionDictionary(FUNCTION_PARAM_SECTION);
@@ -1645,20 +1746,23 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
     if(nonQualifiedParamRefType)
     {
       functionParamSection->AddSectionDictionary(REFERENCE_MEMBER_SECTION);
-      functionParamSection->SetValue(PARAMETER_RAW_TYPE, rawType->getName());
     }
     else
     {
       functionParamSection->AddSectionDictionary(REGULAR_MEMBER_SECTION);
     }
-    if(!nonQualifiedParamPtrType)
+    const FunctionType *ft = nonQualifiedParamPtrType ? getSpelledOutFunctionType(nonQualifiedParamPtrType) : nullptr;
+    if(m_isCpp && !ft)
+    {
+      functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, getAssignableType(argType));
+    }
+    else if(!nonQualifiedParamPtrType)
     {
       functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, dereferencedNonQualifiedArgType);
     }
     else
     {
       functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, argType);
-      const FunctionType *ft = getSpelledOutFunctionType(nonQualifiedParamPtrType);
       if(ft)
       {
         generateDeclarationOfUsedType(m_rootDictionary, ft, false);
@@ -1707,14 +1811,16 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
           ptrSectionAdded = true;
         }
         ctemplate::TemplateDictionary* newPtrParamSection = p_functionSectionDict->AddSectionDictionary(FUNCTION_PARAM_PTR_SECTION);
-        //No need to add the FUNCTION_PARAM_NON_QUALIFIED_TYPE because we will not generate output pointer for const
         newPtrParamSection->SetValue(FUNCTION_PARAM_TYPE, argType);
+        newPtrParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, m_isCpp ? getAssignableType(argType) : argType);
         newPtrParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
         ctemplate::TemplateDictionary* subdict = nullptr;
         //The size of what is pointed to isn't known, whether it is named by a typedef or not.
         const TypeItf* untypedefPointedType = getUnqualifiedAndUntypedefType(pointedType);
         const ComposableType* composableTypeField = untypedefPointedType->asComposableType();
-        if(untypedefPointedType->getCType() == CTYPE_VOID || (composableTypeField && composableTypeField->isForwardDeclared()))
+        const bool isSizeUnknown = untypedefPointedType->getCType() == CTYPE_VOID || (composableTypeField && composableTypeField->isForwardDeclared());
+        newPtrParamSection->AddSectionDictionary(m_isCpp && !isSizeUnknown ? FUNCTION_ASSIGN_OUT_SECTION : FUNCTION_COPY_OUT_SECTION);
+        if(isSizeUnknown)
         {
           subdict = newPtrParamSection->AddSectionDictionary(FUNCTION_VOID_PTR_OUT_SECTION);
         }
@@ -2496,11 +2602,47 @@ const TypeItf& CodeGeneratorCTemplate::getDereferencedType(const TypeItf& p_decl
   return p_decl;
 }
 
+/*!
+ * \brief Returns the tokens of a type, whatever the order they are written in e.g. const int& and int const &
+ */
+static std::vector<std::string> getSortedTokens(const std::string& p_type)
+{
+  std::vector<std::string> tokens;
+  bool isInWord = false;
+  for(const char c : p_type)
+  {
+    const bool isWord = std::isalnum(static_cast<unsigned char>(c)) || c == '_';
+    if(isWord && isInWord)
+    {
+      tokens.back().push_back(c);
+    }
+    else if(!std::isspace(static_cast<unsigned char>(c)))
+    {
+      tokens.emplace_back(1, c);
+    }
+    isInWord = isWord;
+  }
+  std::sort(tokens.begin(), tokens.end());
+  return tokens;
+}
+
 std::string CodeGeneratorCTemplate::getDeclaratorString(const Declarator& p_decl)
 {
   std::string rv { p_decl.getDeclareString() };
   const TypeItf* declType = p_decl.getType();
   const TypeItf* declRawType = getRawType(declType);
+  if(m_isCpp && !declRawType->isImplicit() && !declRawType->isAnonymous() && (!declRawType->isFunctionType() || isTypedefUsed(declType)))
+  {
+    /*
+     * The names written in the header are looked up where the declaration is: the mock needs qualified ones.
+     * What is written can also contain more than the type (e.g. virtual or auto).
+     */
+    const std::string qualifiedName = declType->getFullDeclarationName();
+    if(getSortedTokens(rv) != getSortedTokens(qualifiedName))
+    {
+      return qualifiedName;
+    }
+  }
   /*
    * Only generate an anonymous type if the initial type wasn't a typedef.
    *
diff --git a/src/easyMockGenerate/src/FunctionDeclaration.cpp b/src/easyMockGenerate/src/FunctionDeclaration.cpp
index 45a3c39..616c33e 100644
--- a/src/easyMockGenerate/src/FunctionDeclaration.cpp
+++ b/src/easyMockGenerate/src/FunctionDeclaration.cpp
@@ -14,7 +14,8 @@ FunctionDeclaration::FunctionDeclaration(std::string p_functionName, ReturnValue
     ElementToMock{},
     m_doesThisDeclarationHasBody{false},
     m_cachedHash{0},
-    m_namespace{std::move(p_namespace)}
+    m_namespace{std::move(p_namespace)},
+    m_qualifiers{}
 {
 }
 
@@ -38,6 +39,7 @@ size_t FunctionDeclaration::getHash() const noexcept
   boost::hash_combine(seed, ElementToMock::getHash());
   boost::hash_combine(seed, m_doesThisDeclarationHasBody);
   boost::hash_combine(seed, *m_namespace);
+  boost::hash_combine(seed, m_qualifiers);
 
   return seed;
 }
@@ -55,6 +57,16 @@ std::shared_ptr<const Namespace> FunctionDeclaration::getNamespace() const
   return m_namespace;
 }
 
+const std::string& FunctionDeclaration::getQualifiers() const noexcept
+{
+  return m_qualifiers;
+}
+
+void FunctionDeclaration::setQualifiers(std::string p_qualifiers) noexcept
+{
+  m_qualifiers = std::move(p_qualifiers);
+}
+
 bool FunctionDeclaration::operator==(const FunctionDeclaration& other) const
 {
   bool funEqual = Function::operator==(other);
@@ -65,7 +77,9 @@ bool FunctionDeclaration::operator==(const FunctionDeclaration& other) const
   bool doesThisDeclEqual = this->m_doesThisDeclarationHasBody == other.m_doesThisDeclarationHasBody;
   bool namespaceEqual = *this->m_namespace == *other.m_namespace;
 
-  return funEqual && doesThisDeclEqual && namespaceEqual;
+  bool qualifiersEqual = this->m_qualifiers == other.m_qualifiers;
+
+  return funEqual && doesThisDeclEqual && namespaceEqual && qualifiersEqual;
 }
 
 bool FunctionDeclaration::operator!=(const FunctionDeclaration& other) const
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 4993682..bc7137f 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -23,6 +23,7 @@
 #include <clang/AST/DeclLookups.h>
 #include <clang/AST/DeclContextInternals.h>
 #include <clang/AST/DeclTemplate.h>
+#include <clang/AST/QualTypeNames.h>
 #include <clang/Frontend/CompilerInstance.h>
 #include <clang/Frontend/FrontendActions.h>
 #include <clang/Tooling/CompilationDatabase.h>
@@ -204,8 +205,8 @@ public:
     bool isClassConst = false;
     if(func->isCXXClassMember())
     {
-      auto parent = func->getParent();
-      const clang::QualType qualType = m_context->getRecordType(parent->getOuterLexicalRecordContext());
+      auto parent = clang::cast<clang::CXXRecordDecl>(func->getParent());
+      const clang::QualType qualType = m_context->getRecordType(parent);
       structKnownTypeMap structKnownType;
       auto type = getEasyMocktype(qualType, structKnownType, false);
       assert(type->isComposableType());
@@ -230,6 +231,7 @@ public:
       }
       isClassConst = func->getType()->getAs<clang::FunctionProtoType>()->isConst();
     }
+    const clang::FunctionProtoType* prototype = func->getType()->getAs<clang::FunctionProtoType>();
     auto f = std::make_shared<FunctionDeclaration>(funName, std::move(rv), std::move(param), std::move(enclosingNamespace), parentData);
     f->setAccessSpecifier(std::move(funAccessSpecifier));
     if(parentData)
@@ -247,6 +249,10 @@ public:
     f->setDoesThisDeclarationHasABody(doesThisDeclHasABody);
     f->setOriginFile(originFileFullInfo);
     f->setClassConst(isClassConst);
+    if(m_LO->CPlusPlus && prototype)
+    {
+      f->setQualifiers(getFunctionQualifiers(*prototype));
+    }
     setFunctionAttribute(func, *f);
 
     return f;
@@ -552,6 +558,34 @@ private:
     return rv;
   }
 
+  /*
+   * What follows the parameters (and const) in the declaration of the function.
+   */
+  std::string getFunctionQualifiers(const clang::FunctionProtoType& prototype)
+  {
+    std::string qualifiers;
+    if(prototype.isVolatile())
+    {
+      qualifiers.append(" volatile");
+    }
+    switch(prototype.getRefQualifier())
+    {
+      case clang::RQ_None:
+        break;
+      case clang::RQ_LValue:
+        qualifiers.append(" &");
+        break;
+      case clang::RQ_RValue:
+        qualifiers.append(" &&");
+        break;
+    }
+    if(prototype.isNothrow())
+    {
+      qualifiers.append(" noexcept");
+    }
+    return qualifiers;
+  }
+
   std::shared_ptr<const Namespace> getNamespace(const clang::DeclContext* declContext)
   {
     if(!declContext)
@@ -559,16 +593,10 @@ private:
       return getGlobalNamespace();
     }
     const clang::DeclContext* parentContext = declContext->getParent();
-    for(auto lookup : declContext->lookups())
+    const auto* namespaceDecl = clang::dyn_cast<clang::NamespaceDecl>(declContext);
+    if(namespaceDecl)
     {
-      for (auto namedDecl: lookup)
-      {
-        if(namedDecl->getKind() == clang::Decl::Kind::Namespace)
-        {
-          const auto enclosingNamespace = getNamespace(parentContext);
-          return std::make_shared<const Namespace>(namedDecl->getNameAsString(), enclosingNamespace);
-        }
-      }
+      return std::make_shared<const Namespace>(namespaceDecl->getNameAsString(), getNamespace(parentContext));
     }
     return getNamespace(parentContext);
   }
@@ -938,7 +966,7 @@ private:
     const clang::EnumType *ET = type.getAs<clang::EnumType>();
     const clang::EnumDecl *ED = ET->getDecl();
 
-    const std::string name = ED->getNameAsString();
+    const std::string name = getTypeName(ED);
 
     std::shared_ptr<Enum> enumType = std::make_shared<Enum>(name);
     for(const auto enumConstantDeclaration : ED->enumerators())
@@ -979,7 +1007,7 @@ private:
       }
     }
 
-    std::string typeName = RD->getNameAsString();
+    std::string typeName = getTypeName(RD);
     std::string typedDefName = getTypedefName(p_type);
 
     if(structKnownType.find(typedDefName) != structKnownType.end())
@@ -1048,7 +1076,7 @@ private:
     // If the type doesn't have a complete definition, it is forward declared.
     sType->setForwardDecl(!RD->isCompleteDefinition());
 
-    if(m_ignoreTypeFieldList.find(typeName) == m_ignoreTypeFieldList.end())
+    if(m_ignoreTypeFieldList.find(RD->getNameAsString()) == m_ignoreTypeFieldList.end())
     {
       for (clang::FieldDecl *FD:
           RD->fields())
@@ -1266,6 +1294,21 @@ private:
     return std::make_shared<TypedefType>(name, std::move(typee));
   }
 
+  /*
+   * In C++, the mock names a type from outside of the namespace, or of the class, it is declared in.
+   */
+  std::string getTypeName(const clang::TypeDecl* typeDecl)
+  {
+    const std::string name = typeDecl->getNameAsString();
+    const bool isGlobal = typeDecl->getDeclContext()->getRedeclContext()->isTranslationUnit() &&
+        !llvm::isa<clang::ClassTemplateSpecializationDecl>(typeDecl);
+    if(!m_context->getLangOpts().CPlusPlus || name.empty() || isGlobal)
+    {
+      return name;
+    }
+    return clang::TypeName::getFullyQualifiedName(m_context->getTypeDeclType(typeDecl), *m_context, m_context->getPrintingPolicy(), true);
+  }
+
   std::string getTypedefName(const clang::Type &type)
   {
     const clang::TypedefType* TDT = type.getAs<clang::TypedefType>();
@@ -1274,7 +1317,7 @@ private:
     if(TDT != nullptr)
     {
       TD_RD = TDT->getDecl();
-      typedDefName = TD_RD->getNameAsString();
+      typedDefName = getTypeName(TD_RD);
     }
     return typedDefName;
   }
-- 
2.43.0


From b0fd8661807ec909ec3fdca7759b4876b8c9734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:58 +0000
Subject: [PATCH 51/55] fix: take the type of a function out of its declaration
 word by word

---
 .../src/LLVMParser/LLVMParser.cpp             | 133 +++++++++++-------
 1 file changed, 79 insertions(+), 54 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index bc7137f..de9315a 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -34,7 +34,6 @@
 #include <string>
 #include <vector>
 #include <unordered_map>
-#include <regex>
 #include <set>
 #include <memory>
 #include <optional>
@@ -399,24 +398,46 @@ private:
     return parametersList;
   }
 
-  void removeFromString(std::string &declString, std::string macroStr, bool hasParameter)
+  static bool isPartOfWord(char c)
   {
-    /*
-     * It is needed to escape "(" and ")" in case there are some so that they are not taken as group inside the
-     * std::regex
-     */
-    static std::regex leftParentRegex{"\\("};
-    static std::regex rightParentRegex{"\\)"};
-    macroStr = std::regex_replace(macroStr, leftParentRegex, "\\(");
-    macroStr = std::regex_replace(macroStr, rightParentRegex, "\\)");
-    /*
-     * The macro string doesn't contain any parameter. Matching any parameter is added by hand.
-     */
-    if(hasParameter)
+    return std::isalnum(static_cast<unsigned char>(c)) || c == '_';
+  }
+
+  static bool isInsideWord(const std::string& declString, size_t pos)
+  {
+    return pos > 0 && pos < declString.length() && isPartOfWord(declString[pos - 1]) && isPartOfWord(declString[pos]);
+  }
+
+  /*
+   * Removes every occurrence of a string which isn't a part of another word. If the string has parameters, they are removed as well.
+   */
+  static void removeFromString(std::string &declString, const std::string& toRemove, bool hasParameter)
+  {
+    size_t beginPos = toRemove.empty() ? std::string::npos : declString.find(toRemove);
+    while(beginPos != std::string::npos)
     {
-      macroStr.append("\\(.*\\)");
+      size_t endPos = beginPos + toRemove.length();
+      if(isInsideWord(declString, beginPos) || isInsideWord(declString, endPos))
+      {
+        beginPos = declString.find(toRemove, endPos);
+        continue;
+      }
+      const size_t parameterPos = declString.find_first_not_of(" \t", endPos);
+      if(hasParameter && parameterPos != std::string::npos && declString[parameterPos] == '(')
+      {
+        unsigned int depth = 0;
+        endPos = parameterPos;
+        do
+        {
+          depth += declString[endPos] == '(' ? 1 : 0;
+          depth -= declString[endPos] == ')' ? 1 : 0;
+          endPos++;
+        }
+        while(depth > 0 && endPos < declString.length());
+      }
+      declString.erase(beginPos, endPos - beginPos);
+      beginPos = declString.find(toRemove, beginPos);
     }
-    declString = std::regex_replace(declString, std::regex{macroStr}, "");
   }
 
   void removeAttr(std::string &declString, const clang::Attr* attr)
@@ -446,14 +467,14 @@ private:
         attributeStringRef = clang::Lexer::getSourceText(charSourceRange, *m_SM, *m_LO);
         macroStr = attributeStringRef.str();
       }
-      removeFromString(declString, std::move(macroStr), false);
+      removeFromString(declString, trim(removeComments(macroStr)), false);
     }
   }
 
-  static const std::regex& getAttributeRegex()
+  static void removeAttributes(std::string& declString)
   {
-    static const std::regex attributeRegex{"__attribute(?:__)?[[:space:]]*\\([[:space:]]*\\(.*\\)[[:space:]]*\\)"};
-    return attributeRegex;
+    removeFromString(declString, "__attribute__", true);
+    removeFromString(declString, "__attribute", true);
   }
 
   /*
@@ -464,7 +485,9 @@ private:
   {
     static const unsigned int MAX_DEPTH = 16;
     static const std::set<std::string> specifiers{"extern", "static", "inline", "__inline", "__inline__", "_Noreturn", "__extension__", "\"C\""};
-    std::istringstream tokens{std::regex_replace(macroDefinition, getAttributeRegex(), "")};
+    std::string withoutAttributes{macroDefinition};
+    removeAttributes(withoutAttributes);
+    std::istringstream tokens{withoutAttributes};
     for(std::string token; tokens >> token;)
     {
       if(specifiers.find(token) != specifiers.end())
@@ -534,17 +557,14 @@ private:
           removeFromString(declString, currentTokenStr, md.hasParameters());
         }
       }
-      itrSource = itrSource.getLocWithOffset(currentTokenStr.length());
+      itrSource = rawToken.getEndLoc();
     }
 
-    declString = std::regex_replace(declString, getAttributeRegex(), "");
-    eraseInString(declString, "__inline__ ");
-    eraseInString(declString, "__inline ");
-    eraseInString(declString, "inline ");
-    eraseInString(declString, "_Noreturn ");
-    eraseInString(declString, "__extension__ ");
-    eraseInString(declString, "extern ");
-    eraseInString(declString, "static ");
+    removeAttributes(declString);
+    for(const char* specifier : {"__inline__", "__inline", "inline", "_Noreturn", "__extension__", "extern", "static"})
+    {
+      removeFromString(declString, specifier, false);
+    }
     declString = trim(declString);
     /*
      * When the function isn't the first one of its declaration (int foo(void), *bar(void);), what precedes its name
@@ -660,21 +680,39 @@ private:
     return decayedType ? decayedType->getOriginalType().getAsString() : qualType.getAsString();
   }
 
-  std::string removeComments(std::string declareString)
+  /*
+   * Replaces the comments and the white spaces between two tokens by one space.
+   */
+  std::string removeComments(const std::string& declareString)
   {
-    static std::regex oneLineCommentRegex{"//.*\n"};
-    declareString = std::regex_replace(declareString, oneLineCommentRegex, "");
-    for(auto& c : declareString)
+    std::string withoutComments;
+    size_t curPos = 0;
+    while(curPos < declareString.length())
     {
-      if(c == '\n')
+      size_t nextPos = curPos + 1;
+      bool isSpace = std::isspace(static_cast<unsigned char>(declareString[curPos]));
+      if(declareString.compare(curPos, 2, "//") == 0)
+      {
+        isSpace = true;
+        nextPos = declareString.find('\n', curPos);
+      }
+      else if(declareString.compare(curPos, 2, "/*") == 0)
+      {
+        isSpace = true;
+        nextPos = declareString.find("*/", curPos + 2);
+        nextPos = nextPos == std::string::npos ? nextPos : nextPos + 2;
+      }
+      if(!isSpace)
       {
-        c = ' ';
+        withoutComments.push_back(declareString[curPos]);
       }
+      else if(withoutComments.empty() || withoutComments.back() != ' ')
+      {
+        withoutComments.push_back(' ');
+      }
+      curPos = nextPos;
     }
-    static std::regex commentRegex{"/\\*.*\\*/"};
-    declareString = std::regex_replace(declareString, commentRegex, "");
-
-    return declareString;
+    return withoutComments;
   }
 
   std::string getDeclareString(const clang::SourceLocation& startLoc, const clang::SourceLocation& endLoc, bool fieldDecl)
@@ -682,7 +720,7 @@ private:
     clang::CharSourceRange charSourceRange = clang::Lexer::getAsCharRange(startLoc, *m_SM, *m_LO);
     charSourceRange.setEnd(endLoc);
     clang::StringRef strRef = clang::Lexer::getSourceText(charSourceRange, *m_SM, *m_LO);
-    std::string declareString = strRef.str();
+    std::string declareString = removeComments(strRef.str());
     /*
      * When a declaration is inlined, we ignore the whole declaration in this way
      */
@@ -709,16 +747,12 @@ private:
       }
       while(!declareString.empty() &&
               declareString.back() != ' ' &&
-              declareString.back() != '\n' &&
-              declareString.back() != '\r' &&
-              declareString.back() != '\t' &&
               declareString.back() != '*' &&
               declareString.back() != ')')
       {
         declareString.pop_back();
       }
     }
-    declareString = removeComments(std::move(declareString));
     declareString = trim(std::move(declareString));
 
     return declareString;
@@ -1273,15 +1307,6 @@ private:
     return func->getNameInfo().getName().getAsString();
   }
 
-  void eraseInString(std::string &string,const std::string& toErase)
-  {
-    size_t pos = string.find(toErase);
-    if(pos != std::string::npos)
-    {
-        string.erase(pos, toErase.length());
-    }
-  }
-
   /*
    * The qualifiers of what the typedef stands for belong to the typedef e.g. typedef const int foo;
    */
-- 
2.43.0


From 856d6f0e785414e37de04956a15c20ec5ac30780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:53 +0000
Subject: [PATCH 52/55] fix: keep the types of the same tag and typedef name
 apart

---
 .../src/LLVMParser/LLVMParser.cpp             | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index de9315a..88579bd 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -1026,12 +1026,12 @@ private:
     {
       case STRUCT:
       {
-        contTypeDecl.append("struct ");
+        contTypeDecl.append("struct");
         break;
       }
       case UNION:
       {
-        contTypeDecl.append("union ");
+        contTypeDecl.append("union");
         break;
       }
       case CLASS:
@@ -1044,17 +1044,19 @@ private:
     std::string typeName = getTypeName(RD);
     std::string typedDefName = getTypedefName(p_type);
 
+    //A typedef and a tag of the same name are different types
+    const std::string taggedTypeName = contTypeDecl + ' ' + typeName;
     if(structKnownType.find(typedDefName) != structKnownType.end())
     {
       return structKnownType.at(typedDefName);
     }
-    if(structKnownType.find(typeName) != structKnownType.end())
+    if(structKnownType.find(taggedTypeName) != structKnownType.end())
     {
-      return structKnownType.at(typeName);
+      return structKnownType.at(taggedTypeName);
     }
 
-    std::string declToCheck = typeName + std::string{"_"} + typedDefName;
-    if(declToCheck.compare("_") != 0)
+    std::string declToCheck = typeName + std::string{" "} + typedDefName;
+    if(declToCheck.compare(" ") != 0)
     {
       if(m_cachedStruct.find(declToCheck) != m_cachedStruct.end())
       {
@@ -1104,7 +1106,7 @@ private:
     }
     if(!typeName.empty())
     {
-      structKnownType.insert({typeName, std::make_shared<IncompleteType>(*sType, incType)});
+      structKnownType.insert({taggedTypeName, std::make_shared<IncompleteType>(*sType, incType)});
     }
 
     // If the type doesn't have a complete definition, it is forward declared.
@@ -1153,10 +1155,10 @@ private:
     }
     if(!typeName.empty())
     {
-      structKnownType.erase(typeName);
+      structKnownType.erase(taggedTypeName);
     }
 
-    if(declToCheck.compare("_") != 0)
+    if(declToCheck.compare(" ") != 0)
     {
       if(m_cachedStruct.find(declToCheck) == m_cachedStruct.end())
       {
-- 
2.43.0


From bd0faaae4b084fbe16e5f7f692f3d1be7f201741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:00 +0000
Subject: [PATCH 53/55] fix: compare fields whose type is the name of a pointer
 as pointers

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 08f9bd5..5e0f91b 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1932,8 +1932,8 @@ void CodeGeneratorCTemplate::generateBodyStructCompare(ctemplate::TemplateDictio
   static unsigned int s_nbAnonymousField = 0;
 
   const TypeItf* curFieldType = p_curField->getType();
-  const TypeItf* unqualType = curFieldType->unqualify();
-  const bool isPointer = unqualType->isPointer();
+  //The type of the field can be the name of a pointer (typedef struct foo *fooPtr;)
+  const bool isPointer = getUnqualifiedAndUntypedefType(curFieldType)->isPointer();
   const TypeItf* rawCurFieldType = getRawType(curFieldType);
   const ComposableType* curFieldComposableType = rawCurFieldType->asComposableType();
   const IncompleteType* incompleteType = rawCurFieldType->asIncompleteType();
-- 
2.43.0


From 49b3c0cf909ec567028d45bc36b693b1533f9627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:03 +0000
Subject: [PATCH 54/55] fix: guard the anonymous types apart from the tags in
 the generated types

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 5e0f91b..eec6011 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2184,7 +2184,8 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
       std::string finalTypeName{typeName};
       if (finalTypeName.empty())
       {
-        finalTypeName = getAnonymousTypedefUniqueName(p_type);
+        //The name of the typedef can be the tag of another type as well
+        finalTypeName = "_typedef_" + getAnonymousTypedefUniqueName(p_type);
       }
       guardName.append(finalTypeName);
       generatedType_section->SetValue(GENERATED_TYPE_DECLARE_TYPENAME_VAR, guardName);
-- 
2.43.0


From 736d3f77c97a4b1464fb8605454097da4f50cc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:58 +0000
Subject: [PATCH 55/55] fix: hash bit-fields and arrays differently

---
 src/easyMockGenerate/src/ComposableBitfield.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/easyMockGenerate/src/ComposableBitfield.cpp b/src/easyMockGenerate/src/ComposableBitfield.cpp
index f0702c7..0e077ec 100644
--- a/src/easyMockGenerate/src/ComposableBitfield.cpp
+++ b/src/easyMockGenerate/src/ComposableBitfield.cpp
@@ -42,6 +42,8 @@ std::size_t ComposableBitfield::getHash() const noexcept
   }
   std::size_t seed { ComposableFieldItf::getHash() };
   boost::hash_combine(seed, m_size);
+  //A bit-field isn't an array of as many elements
+  boost::hash_combine(seed, true);
 
   return seed;
 }
-- 
2.43.0


From 0495abc40baf9cddf20da21c3fbe9b1df4243d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:21 +0000
Subject: [PATCH 01/89] fix: start encoding with the same byte order as
 validation

---
 Core/Assembler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index b1d006c..eb57850 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -73,7 +73,8 @@ bool encodeAssembly(std::unique_ptr<CAssemblerCommand> content, SymbolData& symD
 		printf("Encode...\n");
 #endif
 
-	// and finally encode
+	// and finally encode. start with the same byte order as every validation pass
+	g_fileManager->setEndianness(Endianness::Little);
 	if (Global.memoryMode)
 		g_fileManager->openFile(Global.memoryFile,false);
 
-- 
2.43.0


From c7173ac0806c2fa9379d07f778c24fd1e384603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:21 +0000
Subject: [PATCH 02/89] fix: max() of only negative floats

---
 Core/ExpressionFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 51b3c92..5912144 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -286,7 +286,7 @@ ExpressionValue expFuncMax(const Identifier &funcName, const std::vector<Express
 	double floatMax, floatCur;
 	int64_t intMax, intCur;
 
-	floatCur = floatMax = std::numeric_limits<double>::min();
+	floatCur = floatMax = std::numeric_limits<double>::lowest();
 	intCur = intMax = std::numeric_limits<int64_t>::min();
 	bool isInt = true;
 
-- 
2.43.0


From 3d8efc07956bff94f42b7641827c68af0a766bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:21 +0000
Subject: [PATCH 03/89] fix: logical and/or with float operands yield an
 integer

---
 Core/Expression.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index cf2bff7..8290679 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -408,13 +408,13 @@ ExpressionValue ExpressionValue::operator&&(const ExpressionValue& other) const
 		result.intValue = intValue && other.intValue;
 		break;
 	case ExpressionValueCombination::FI:
-		result.floatValue = floatValue && other.intValue;
+		result.intValue = floatValue && other.intValue;
 		break;
 	case ExpressionValueCombination::IF:
-		result.floatValue = intValue && other.floatValue;
+		result.intValue = intValue && other.floatValue;
 		break;
 	case ExpressionValueCombination::FF:
-		result.floatValue = floatValue && other.floatValue;
+		result.intValue = floatValue && other.floatValue;
 		break;
 	default:
 		break;
@@ -434,13 +434,13 @@ ExpressionValue ExpressionValue::operator||(const ExpressionValue& other) const
 		result.intValue = intValue || other.intValue;
 		break;
 	case ExpressionValueCombination::FI:
-		result.floatValue = floatValue || other.intValue;
+		result.intValue = floatValue || other.intValue;
 		break;
 	case ExpressionValueCombination::IF:
-		result.floatValue = intValue || other.floatValue;
+		result.intValue = intValue || other.floatValue;
 		break;
 	case ExpressionValueCombination::FF:
-		result.floatValue = floatValue || other.floatValue;
+		result.intValue = floatValue || other.floatValue;
 		break;
 	default:
 		break;
-- 
2.43.0


From 815674775397b527c904ecb9e298942b36994ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:21 +0000
Subject: [PATCH 04/89] fix: report .headersize without an open file instead of
 crashing

---
 Commands/CDirectiveFile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index c2c4ba1..ca76be5 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -468,6 +468,11 @@ CDirectiveHeaderSize::CDirectiveHeaderSize(Expression expression)
 void CDirectiveHeaderSize::exec() const
 {
 	std::shared_ptr<AssemblerFile> openFile = g_fileManager->getOpenFile();
+	if (!openFile)
+	{
+		Logger::queueError(Logger::Error, "No file opened");
+		return;
+	}
 	if (!openFile->hasFixedVirtualAddress())
 	{
 		Logger::printError(Logger::Error, "Header size not applicable for this file");
-- 
2.43.0


From bd48fb88db0940eadc7f277c8ea169070f5fdba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:21 +0000
Subject: [PATCH 05/89] fix: clear pools, sub areas and generated labels
 between runs

---
 Core/Allocations.cpp | 2 ++
 Core/SymbolTable.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/Core/Allocations.cpp b/Core/Allocations.cpp
index 920ef08..74fcdcb 100644
--- a/Core/Allocations.cpp
+++ b/Core/Allocations.cpp
@@ -17,6 +17,8 @@ bool Allocations::keptPositions = false;
 void Allocations::clear()
 {
 	allocations.clear();
+	pools.clear();
+	subAreas.clear();
 	keepPositions = false;
 	nextKeepPositions = true;
 	keptPositions = false;
diff --git a/Core/SymbolTable.cpp b/Core/SymbolTable.cpp
index b7f682f..52dcf6f 100644
--- a/Core/SymbolTable.cpp
+++ b/Core/SymbolTable.cpp
@@ -40,6 +40,7 @@ void SymbolTable::clear()
 {
 	symbols.clear();
 	labels.clear();
+	generatedLabels.clear();
 	equationsCount = 0;
 	uniqueCount = 0;
 }
-- 
2.43.0


From 93630812a9deb65874e126436516bafb52f924be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:21 +0000
Subject: [PATCH 06/89] fix: do not modify the allocations when querying sub
 area usage

---
 Core/Allocations.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Core/Allocations.cpp b/Core/Allocations.cpp
index 74fcdcb..c6bbba0 100644
--- a/Core/Allocations.cpp
+++ b/Core/Allocations.cpp
@@ -123,9 +123,12 @@ int64_t Allocations::getSubAreaUsage(int64_t fileID, int64_t position)
 	}
 
 	// Now subtract out the original usage.
-	if (maxExtent <= allocations[key].usage)
+	// This is also called while encoding, from several threads, so don't insert anything.
+	auto it = allocations.find(key);
+	int64_t usage = it != allocations.end() ? it->second.usage : 0;
+	if (maxExtent <= usage)
 		return 0;
-	return maxExtent - allocations[key].usage;
+	return maxExtent - usage;
 }
 
 void Allocations::validateOverlap()
-- 
2.43.0


From 771b5863444255a8fbd9bdba50a04baa1fa35a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:21 +0000
Subject: [PATCH 07/89] fix: reject negative .fill sizes instead of overrunning
 a buffer

---
 Commands/CDirectiveFile.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index ca76be5..e3399a4 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -343,6 +343,12 @@ bool CDirectiveAlignFill::Validate(const ValidateState &state)
 		return false;
 	}
 
+	if (mode == Fill && value < 0)
+	{
+		Logger::queueError(Logger::Error, "Negative fill size");
+		return false;
+	}
+
 	int64_t oldSize = finalSize;
 	int64_t mod;
 	switch (mode)
-- 
2.43.0


From b6fd8d7e69dd23f6cc6a833e019edde441b6a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:21 +0000
Subject: [PATCH 08/89] fix: align negative addresses with the fewest bytes

---
 Commands/CDirectiveFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index e3399a4..2c1225a 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -354,11 +354,11 @@ bool CDirectiveAlignFill::Validate(const ValidateState &state)
 	switch (mode)
 	{
 	case AlignVirtual:
-		mod = g_fileManager->getVirtualAddress() % value;
+		mod = g_fileManager->getVirtualAddress() & (value-1);
 		finalSize = mod ? value-mod : 0;
 		break;
 	case AlignPhysical:
-		mod = g_fileManager->getPhysicalAddress() % value;
+		mod = g_fileManager->getPhysicalAddress() & (value-1);
 		finalSize = mod ? value-mod : 0;
 		break;
 	case Fill:
-- 
2.43.0


From 36ebbcc2f3661feffd97bbc612447dd33819fc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:21 +0000
Subject: [PATCH 09/89] fix: reject negative .incbin ranges before anything is
 written

---
 Commands/CDirectiveFile.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index 2c1225a..69250d7 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -244,6 +244,12 @@ bool CDirectiveIncbin::Validate(const ValidateState &state)
 			return false;
 		}
 
+		if (start < 0)
+		{
+			Logger::queueError(Logger::Error, "Negative start position");
+			return false;
+		}
+
 		if (start > fileSize)
 		{
 			Logger::queueError(Logger::Error, "Start position past end of file");
@@ -260,11 +266,17 @@ bool CDirectiveIncbin::Validate(const ValidateState &state)
 			Logger::queueError(Logger::Error, "Invalid size expression");
 			return false;
 		}
+
+		if (size < 0)
+		{
+			Logger::queueError(Logger::Error, "Negative size");
+			return false;
+		}
 	} else {
 		size = fileSize-start;
 	}
 
-	if (start+size > fileSize)
+	if (size > fileSize-start)
 	{
 		Logger::queueError(Logger::Warning, "Read size truncated due to file size");
 		size = fileSize-start;
-- 
2.43.0


From c72e75051ba72dbbb5c3b3ce729365908e0c50ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:51 +0000
Subject: [PATCH 10/89] fix: report a substr() start past the end of the string
 instead of aborting

---
 Core/ExpressionFunctions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 5912144..e650b38 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -365,6 +365,12 @@ ExpressionValue expFuncSubstr(const Identifier &funcName, const std::vector<Expr
 	GET_PARAM(parameters,1,start);
 	GET_PARAM(parameters,2,count);
 
+	if (start < 0 || (size_t)start > source->size())
+	{
+		Logger::queueError(Logger::Error, "Invalid start position for %s", funcName);
+		return ExpressionValue();
+	}
+
 	return ExpressionValue(source->string().substr((size_t)start,(size_t)count));
 }
 
-- 
2.43.0


From 1ceb136a6c68b06ea03954c7b5e8ceec2fdd62b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:19 +0000
Subject: [PATCH 11/89] fix: take line, file and section of a condition from
 where it is written

---
 Parser/DirectivesParser.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index d20d401..c408ad5 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -236,6 +236,19 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int
 		return nullptr;
 	}
 
+	// create the command before parsing the blocks, so that it uses the line, file
+	// and section of the condition
+	std::unique_ptr<CDirectiveConditional> cond;
+	if (condResult == ConditionalResult::Unknown)
+	{
+		if (exp.isLoaded())
+			cond = std::make_unique<CDirectiveConditional>(type,exp);
+		else if (name.size() != 0)
+			cond = std::make_unique<CDirectiveConditional>(type, name);
+		else
+			cond = std::make_unique<CDirectiveConditional>(type);
+	}
+
 	parser.pushConditionalResult(condResult);
 	std::unique_ptr<CAssemblerCommand> ifBlock = parser.parseCommandSequence('.', {".else", ".elseif", ".elseifdef", ".elseifndef", ".endif"});
 	parser.popConditionalResult();
@@ -305,14 +318,6 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int
 			return std::make_unique<DummyCommand>();
 	}
 
-	std::unique_ptr<CDirectiveConditional> cond;
-	if (exp.isLoaded())
-		cond = std::make_unique<CDirectiveConditional>(type,exp);
-	else if (name.size() != 0)
-		cond = std::make_unique<CDirectiveConditional>(type, name);
-	else
-		cond = std::make_unique<CDirectiveConditional>(type);
-
 	cond->setContent(std::move(ifBlock),std::move(elseBlock));
 	return cond;
 }
-- 
2.43.0


From 155e705ec12f62c67ef9ef714920a02a1b3a1606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:19 +0000
Subject: [PATCH 12/89] fix: make equs unique per macro call independently of
 the first call

---
 Parser/Parser.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 9f37dc2..1045cc3 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -359,6 +359,14 @@ bool Parser::checkEquLabel()
 			const StringLiteral &value = peekToken(pos+1).stringValue();
 			eatTokens(pos+2);
 
+			// when parsing a macro, just remember the equ name. this applies to all
+			// blocks, as other instantiations can have different conditions
+			if (initializingMacro)
+			{
+				macroLabels.insert(name);
+				return true;
+			}
+
 			// skip the equ if it's inside a false conditional block
 			if (!isInsideTrueBlock())
 				return true;
@@ -371,13 +379,6 @@ bool Parser::checkEquLabel()
 				return true;
 			}
 
-			// when parsing a macro, just remember the equ name
-			if (initializingMacro)
-			{
-				macroLabels.insert(name);
-				return true;
-			}
-
 			if (!Global.symbolTable.isValidSymbolName(name))
 			{
 				printError(start, "Invalid equation name \"%s\"",name);
-- 
2.43.0


From 0e14ddd101ee168b656f509fc393bc50c33c1e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:11 +0000
Subject: [PATCH 13/89] fix: .resetdelay only resets the current delay, not all
 later checks

---
 Archs/MIPS/MipsParser.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/Archs/MIPS/MipsParser.cpp b/Archs/MIPS/MipsParser.cpp
index 13a779c..fad5f2e 100644
--- a/Archs/MIPS/MipsParser.cpp
+++ b/Archs/MIPS/MipsParser.cpp
@@ -127,10 +127,24 @@ const MipsRegisterDescriptor mipsRspVectorRegisters[] = {
 	{ "v30", 30 }, { "v31", 31 },
 };
 
+// resets the current load delay and delay slot status, subsequent instructions are checked normally
+class MipsResetDelayCommand: public CAssemblerCommand
+{
+public:
+	bool Validate(const ValidateState &state) override
+	{
+		Mips.SetLoadDelay(false,0);
+		Mips.SetDelaySlot(false);
+		return false;
+	}
+	void Encode() const override { }
+	void writeTempData(TempData& tempData) const override { }
+	void writeSymData(SymbolData& symData) const override { }
+};
+
 std::unique_ptr<CAssemblerCommand> parseDirectiveResetDelay(Parser& parser, int flags)
 {
-	Mips.SetIgnoreDelay(true);
-	return std::make_unique<DummyCommand>();
+	return std::make_unique<MipsResetDelayCommand>();
 }
 
 std::unique_ptr<CAssemblerCommand> parseDirectiveFixLoadDelay(Parser& parser, int flags)
-- 
2.43.0


From 1b2b8415b1cfd3d8f1b328b103b7985d09aaa9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:11 +0000
Subject: [PATCH 14/89] fix: reject MIPS branches that are one instruction out
 of range

---
 Archs/MIPS/CMipsInstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/MIPS/CMipsInstruction.cpp b/Archs/MIPS/CMipsInstruction.cpp
index ac364a4..312c8eb 100644
--- a/Archs/MIPS/CMipsInstruction.cpp
+++ b/Archs/MIPS/CMipsInstruction.cpp
@@ -125,7 +125,7 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 		{
 			int num = (int) (immediateData.primary.value-RamPos-4);
 			
-			if (num > 0x20000 || num < (-0x20000))
+			if (num >= 0x20000 || num < (-0x20000))
 			{
 				Logger::queueError(Logger::Error, "Branch target %08X out of range",immediateData.primary.value);
 				return false;
-- 
2.43.0


From 0412e5a95990058ae84d1fa6aa8d9ad060c2bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:11 +0000
Subject: [PATCH 15/89] fix: reset the MIPS load delay settings between runs

---
 Core/Assembler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index eb57850..f1ea4ef 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -164,6 +164,7 @@ bool runArmips(ArmipsArguments& settings)
 	Global.FileInfo.FileNum = 0;
 
 	Arm.clear();
+	Mips = CMipsArchitecture();
 
 	ExpressionFunctionHandler::instance().reset();
 	registerExpressionFunctions(ExpressionFunctionHandler::instance());
-- 
2.43.0


From 46279c2b363cc6a1aa5cf319f8c928511ac5d4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:11 +0000
Subject: [PATCH 16/89] fix: directives in known false blocks do not switch
 modes or architectures

---
 Core/Misc.h                 |  1 +
 Parser/DirectivesParser.cpp | 38 +++++++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/Core/Misc.h b/Core/Misc.h
index 5b6cd64..3d2413e 100644
--- a/Core/Misc.h
+++ b/Core/Misc.h
@@ -55,6 +55,7 @@ public:
 	static bool hasError() { return error; };
 	static bool hasFatalError() { return fatalError; };
 	static void setErrorOnWarning(bool b) { errorOnWarning = b; };
+	static bool getErrorOnWarning() { return errorOnWarning; };
 	static void setSilent(bool b) { silent = b; };
 	static bool isSilent() { return silent; }
 	static void suppressErrors() { ++suppressLevel; }
diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index c408ad5..705c4c0 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -192,6 +192,36 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveObjImport(Parser& parser, int f
 	return std::make_unique<DirectiveObjImport>(fileName.path());
 }
 
+// Restores all settings that are changed while parsing. Used for blocks that are known to be
+// false, as their directives must not have any effect.
+class ParseSettingsRestorer
+{
+public:
+	~ParseSettingsRestorer()
+	{
+		Mips.SetVersion(mipsVersion);
+		Mips.SetFixLoadDelay(mipsFixLoadDelay);
+		Arm.setVersion(armVersion);
+		Arm.SetThumbMode(armThumbMode);
+		SuperH.setVersion(shVersion);
+		if (&Architecture::current() != &architecture)
+			Architecture::setCurrent(architecture);
+		Global.nocash = nocash;
+		Global.relativeInclude = relativeInclude;
+		Logger::setErrorOnWarning(errorOnWarning);
+	}
+private:
+	Architecture& architecture = Architecture::current();
+	MipsArchType mipsVersion = Mips.GetVersion();
+	bool mipsFixLoadDelay = Mips.GetFixLoadDelay();
+	ArmArchType armVersion = Arm.getVersion();
+	bool armThumbMode = Arm.GetThumbMode();
+	ShArchType shVersion = SuperH.getVersion();
+	bool nocash = Global.nocash;
+	bool relativeInclude = Global.relativeInclude;
+	bool errorOnWarning = Logger::getErrorOnWarning();
+};
+
 std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int flags)
 {
 	ConditionType type;
@@ -249,9 +279,14 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int
 			cond = std::make_unique<CDirectiveConditional>(type);
 	}
 
+	std::optional<ParseSettingsRestorer> restorer;
+	if (condResult == ConditionalResult::False)
+		restorer.emplace();
+
 	parser.pushConditionalResult(condResult);
 	std::unique_ptr<CAssemblerCommand> ifBlock = parser.parseCommandSequence('.', {".else", ".elseif", ".elseifdef", ".elseifndef", ".endif"});
 	parser.popConditionalResult();
+	restorer.reset();
 
 	// update the file info so that else commands get the right line number
 	parser.updateFileInfo();
@@ -281,6 +316,9 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int
 		break;
 	}
 
+	if (elseResult == ConditionalResult::False)
+		restorer.emplace();
+
 	parser.pushConditionalResult(elseResult);
 	if (identifier == ".else")
 	{
-- 
2.43.0


From c2fc325e170ee6c6f811e8452bfd9d3126935216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:53 +0000
Subject: [PATCH 17/89] fix: do not run out of memory when an empty equ is used

---
 Parser/Tokenizer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Parser/Tokenizer.cpp b/Parser/Tokenizer.cpp
index fa781a8..08f114d 100644
--- a/Parser/Tokenizer.cpp
+++ b/Parser/Tokenizer.cpp
@@ -98,6 +98,11 @@ bool Tokenizer::processElement(TokenList::iterator& it)
 
 				// make room for the replacement tokens
 				const std::vector<Token>& replacement = equValues[index];
+
+				// an equ without a value can't be used in place of anything
+				if (replacement.empty())
+					break;
+
 				tokens.insert(nextIt, replacement.size()-1, {});
 
 				// insert replacement tokens, while keeping the file info of the original token
-- 
2.43.0


From bafc7605b35665c508ce1485e8d96fc2b7600492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:21 +0000
Subject: [PATCH 18/89] fix: macro parameters and labels do not capture the
 tokens of arguments

---
 Parser/Parser.cpp    | 18 +++++-------------
 Parser/Tokenizer.cpp | 14 +++++++++-----
 Parser/Tokenizer.h   |  4 ++++
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 1045cc3..d5b0b94 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -363,7 +363,8 @@ bool Parser::checkEquLabel()
 			// blocks, as other instantiations can have different conditions
 			if (initializingMacro)
 			{
-				macroLabels.insert(name);
+				if (!start.isReplacement())
+					macroLabels.insert(name);
 				return true;
 			}
 
@@ -681,7 +682,6 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 	// registering replacements for parameter values
 	TokenStreamTokenizer macroTokenizer;
 
-	std::set<Identifier> identifierParameters;
 	for (size_t i = 0; i < macro.parameters.size(); i++)
 	{
 		if (peekToken().type == TokenType::Separator)
@@ -703,10 +703,6 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 		if (!tokens)
 			return nullptr;
 
-		// remember any single identifier parameters for the label replacement
-		if (tokens->size() == 1 && tokens->front().type == TokenType::Identifier)
-			identifierParameters.insert(tokens->front().identifierValue());
-
 		// give them as a replacement to new tokenizer
 		macroTokenizer.registerReplacement(macro.parameters[i], *tokens);
 	}
@@ -765,12 +761,7 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 	// register labels and replacements
 	for (const Identifier& label: macro.labels)
 	{
-		// check if the label is using the name of a parameter
-		// in that case, don't register a unique replacement
-		if (identifierParameters.find(label) != identifierParameters.end())
-			continue;
-
-		// otherwise make sure the name is unique
+		// make sure the name is unique. tokens of arguments are not affected by this
 		std::string fullName;
 		if (Global.symbolTable.isLocalSymbol(Identifier(label)))
 			fullName = tfm::format("@@%s_%s_%08X",macro.name,label.string().substr(2),macro.counter);
@@ -801,7 +792,8 @@ std::unique_ptr<CAssemblerCommand> Parser::parseLabel()
 		const Identifier &name = start.identifierValue();
 		eatTokens(2);
 		
-		if (initializingMacro)
+		// labels that are named by an argument are those of the caller
+		if (initializingMacro && !start.isReplacement())
 			macroLabels.insert(name);
 		
 		if (!Global.symbolTable.isValidSymbolName(name))
diff --git a/Parser/Tokenizer.cpp b/Parser/Tokenizer.cpp
index 08f114d..1780cb2 100644
--- a/Parser/Tokenizer.cpp
+++ b/Parser/Tokenizer.cpp
@@ -58,9 +58,13 @@ bool Tokenizer::processElement(TokenList::iterator& it)
 		bool replaced = false;
 		if ((*it).type == TokenType::Identifier)
 		{
-			const Identifier &identifier = (*it).identifierValue();
+			const Identifier identifier = (*it).identifierValue();
 			for (const Replacement& replacement: replacements)
 			{
+				// tokens that were already inserted as a replacement keep their meaning
+				if ((*it).replacement)
+					break;
+
 				// if the identifier matches, add all of its tokens
 				if (replacement.identifier == identifier)
 				{
@@ -72,11 +76,10 @@ bool Tokenizer::processElement(TokenList::iterator& it)
 					// are still guaranteed to be valid
 					(*it) = replacement.value[0];
 					tokens.insert(insertIt,replacement.value.begin()+1, replacement.value.end());
+					for (TokenList::iterator newIt = it; newIt != insertIt; ++newIt)
+						newIt->replacement = true;
 
-					// If the value at this position didn't change, then just keep going.
-					// Otherwise we'd be stuck in an endless replace loop
-					if ((*it).type != TokenType::Identifier || identifier != (*it).identifierValue())
-						replaced = true;
+					replaced = true;
 					break;
 				}
 			}
@@ -177,6 +180,7 @@ std::vector<Token> Tokenizer::getTokens(TokenizerPosition start, TokenizerPositi
 	{
 		Token tok = *it;
 		tok.checked = false;
+		tok.replacement = false;
 		result.push_back(tok);
 	}
 
diff --git a/Parser/Tokenizer.h b/Parser/Tokenizer.h
index 4913b14..4320941 100644
--- a/Parser/Tokenizer.h
+++ b/Parser/Tokenizer.h
@@ -100,8 +100,12 @@ struct Token
 	size_t column = 0;
 	TokenType type = TokenType::Invalid;
 
+	// true if the token was inserted in place of a macro parameter or label
+	bool isReplacement() const { return replacement; }
+
 protected:
 	bool checked = false;
+	bool replacement = false;
 
 	using ValueType = std::variant<std::monostate, int64_t, double, StringLiteral, Identifier>;
 	ValueType value;
-- 
2.43.0


From 9da0b65f3f92a8bb01f1697cf59d37b7c1912f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:54 +0000
Subject: [PATCH 19/89] fix: forget areas and regions whose condition became
 false

---
 Core/Allocations.cpp | 14 +++++++++++++-
 Core/Allocations.h   |  1 +
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/Core/Allocations.cpp b/Core/Allocations.cpp
index c6bbba0..22bb995 100644
--- a/Core/Allocations.cpp
+++ b/Core/Allocations.cpp
@@ -27,7 +27,7 @@ void Allocations::clear()
 void Allocations::setArea(int64_t fileID, int64_t position, int64_t space, int64_t usage, bool usesFill, bool shared)
 {
 	Key key{ fileID, position };
-	allocations[key] = Usage{ space, usage, usesFill, shared };
+	allocations[key] = Usage{ space, usage, usesFill, shared, true };
 }
 
 void Allocations::forgetArea(int64_t fileID, int64_t position, int64_t space)
@@ -99,6 +99,18 @@ bool Allocations::allocateSubArea(int64_t fileID, int64_t& position, int64_t min
 
 void Allocations::clearSubAreas()
 {
+	// Forget areas that aren't part of the program anymore, e.g. because of a condition.
+	for (auto it = allocations.begin(); it != allocations.end(); )
+	{
+		if (it->second.used)
+		{
+			it->second.used = false;
+			++it;
+		} else {
+			it = allocations.erase(it);
+		}
+	}
+
 	subAreas.clear();
 	keepPositions = nextKeepPositions;
 	nextKeepPositions = true;
diff --git a/Core/Allocations.h b/Core/Allocations.h
index 27b9bec..68486ba 100644
--- a/Core/Allocations.h
+++ b/Core/Allocations.h
@@ -63,6 +63,7 @@ private:
 		int64_t usage;
 		bool usesFill;
 		bool shared;
+		bool used;	// has the area been set in the current pass?
 	};
 
 	struct SubArea
-- 
2.43.0


From 369552d7a2e38d47a55e5f0ba37d251f729a572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:31 +0000
Subject: [PATCH 20/89] fix: report "File not closed" before any output is
 written

---
 Core/Assembler.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index f1ea4ef..8c6b2b4 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -62,6 +62,13 @@ bool encodeAssembly(std::unique_ptr<CAssemblerCommand> content, SymbolData& symD
 
 	Allocations::validateOverlap();
 
+	// report this before anything is written, in case warnings are errors
+	if (!Global.memoryMode && g_fileManager->hasOpenFile())
+	{
+		Logger::queueError(Logger::Warning, "File not closed");
+		g_fileManager->closeFile();
+	}
+
 	Logger::printQueue();
 	if (Logger::hasError())
 	{
@@ -110,11 +117,7 @@ bool encodeAssembly(std::unique_ptr<CAssemblerCommand> content, SymbolData& symD
 	}
 
 	if (g_fileManager->hasOpenFile())
-	{
-		if (!Global.memoryMode)
-			Logger::printError(Logger::Warning, "File not closed");
 		g_fileManager->closeFile();
-	}
 
 	if (Logger::hasError())
 	{
-- 
2.43.0


From 4d2bfc6ff78759c1b4f2efa6942188804c1b8a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:07 +0000
Subject: [PATCH 21/89] fix: blocks that don't take effect report nothing while
 parsing

Don't fold constants in unknown or false blocks (division by zero etc. was
reported even if the block had no effect), don't look for the files of
.incbin, .loadtable and .importobj inside of false blocks.
---
 Core/Expression.cpp         |  5 +++--
 Parser/DirectivesParser.cpp | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index 8290679..245c025 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -575,8 +575,9 @@ bool ExpressionInternal::simplify(bool inUnknownOrFalseBlock)
 			canSimplify = false;
 	}
 
-	// if so, this expression can be evaluated into a constant
-	if (canSimplify)
+	// if so, this expression can be evaluated into a constant. in blocks that possibly
+	// don't take effect this is left for later, as evaluating it may report something
+	if (canSimplify && !inUnknownOrFalseBlock)
 	{
 		ExpressionValue value = evaluate();
 
diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index 705c4c0..d65ea90 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -84,7 +84,11 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveIncbin(Parser& parser, int flag
 	std::vector<Expression> list;
 	if (!parser.parseExpressionList(list,1,3))
 		return nullptr;
-	
+
+	// don't look for the file if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	StringLiteral fileName;
 	if (!list[0].evaluateString(fileName,false))
 		return nullptr;
@@ -176,6 +180,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveObjImport(Parser& parser, int f
 	if (!parser.parseExpressionList(list,1,2))
 		return nullptr;
 
+	// don't look for the file if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	StringLiteral fileName;
 	if (!list[0].evaluateString(fileName,true))
 		return nullptr;
@@ -241,7 +249,8 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int
 			return std::make_unique<DummyCommand>();
 		}
 
-		if (exp.isConstExpression())
+		// conditions inside of false blocks don't matter
+		if (exp.isConstExpression() && parser.isInsideTrueBlock())
 		{
 			ExpressionValue result = exp.evaluate();
 			if (result.isInt())
@@ -368,6 +377,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveTable(Parser& parser, int flags
 	if (!parser.parseExpressionList(list,1,2))
 		return nullptr;
 
+	// don't look for the file if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	StringLiteral fileName;
 	if (!list[0].evaluateString(fileName,true))
 	{
-- 
2.43.0


From 626563435d0c4036ee01bbe04e534b65fc429871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:56 +0000
Subject: [PATCH 22/89] fix: nothing in a false block defines symbols or is
 undecided

Labels in known-false blocks and in the analysis of a macro body were put in
the symbol table, so that a later equ of that name failed. Conditions inside of
a false block counted as undecided, so that macro and equ definitions in it
were errors.
---
 Parser/DirectivesParser.cpp | 15 +++++++++++++--
 Parser/Parser.cpp           | 15 +++++++++++++++
 Parser/Parser.h             |  1 +
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index d65ea90..4f121fa 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -249,7 +249,6 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int
 			return std::make_unique<DummyCommand>();
 		}
 
-		// conditions inside of false blocks don't matter
 		if (exp.isConstExpression() && parser.isInsideTrueBlock())
 		{
 			ExpressionValue result = exp.evaluate();
@@ -275,6 +274,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int
 		return nullptr;
 	}
 
+	// inside of a false block, all branches are known to have no effect
+	if (!parser.isInsideTrueBlock())
+		condResult = ConditionalResult::False;
+
 	// create the command before parsing the blocks, so that it uses the line, file
 	// and section of the condition
 	std::unique_ptr<CDirectiveConditional> cond;
@@ -695,6 +698,9 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveDefineLabel(Parser& parser, int
 		return nullptr;
 	}
 
+	if (parser.skipLabel(identifier))
+		return std::make_unique<DummyCommand>();
+
 	return std::make_unique<CAssemblerLabel>(identifier,Identifier(tok.getOriginalText()),value,thumbMode);
 }
 
@@ -720,7 +726,9 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveFunction(Parser& parser, int fl
 		return nullptr;
 	}
 
-	auto func = std::make_unique<CDirectiveFunction>(Identifier(tok.identifierValue()), Identifier(tok.getOriginalText()));
+	std::unique_ptr<CDirectiveFunction> func;
+	if (!parser.skipLabel(tok.identifierValue()))
+		func = std::make_unique<CDirectiveFunction>(Identifier(tok.identifierValue()), Identifier(tok.getOriginalText()));
 	std::unique_ptr<CAssemblerCommand> seq = parser.parseCommandSequence('.', {".endfunc",".endfunction",".func",".function"});
 
 	const Token &next = parser.peekToken();
@@ -738,6 +746,9 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveFunction(Parser& parser, int fl
 		}
 	}
 
+	if (func == nullptr)
+		return std::make_unique<DummyCommand>();
+
 	func->setContent(std::move(seq));
 	return func;
 }
diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index d5b0b94..cc37fa2 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -802,12 +802,27 @@ std::unique_ptr<CAssemblerCommand> Parser::parseLabel()
 			return nullptr;
 		}
 
+		if (skipLabel(name))
+			return std::make_unique<DummyCommand>();
+
 		return std::make_unique<CAssemblerLabel>(name,Identifier(start.getOriginalText()));
 	}
 
 	return nullptr;
 }
 
+bool Parser::skipLabel(const Identifier& name)
+{
+	// labels in false blocks and in macros that are merely analyzed don't become symbols,
+	// they only separate sections
+	if (isInsideTrueBlock() && !initializingMacro)
+		return false;
+
+	if (!Global.symbolTable.isLocalSymbol(name))
+		++Global.Section;
+	return true;
+}
+
 std::unique_ptr<CAssemblerCommand> Parser::handleError()
 {
 	// skip the rest of the statement
diff --git a/Parser/Parser.h b/Parser/Parser.h
index 9e14538..f9cc573 100644
--- a/Parser/Parser.h
+++ b/Parser/Parser.h
@@ -65,6 +65,7 @@ public:
 	
 	void pushConditionalResult(ConditionalResult cond);
 	void popConditionalResult() { conditionStack.pop_back(); };
+	bool skipLabel(const Identifier& name);
 	bool isInsideTrueBlock() { return conditionStack.back().inTrueBlock; }
 	bool isInsideUnknownBlock() { return conditionStack.back().inUnknownBlock; }
 
-- 
2.43.0


From 9a8f6798e72645807e03c0d601e0640aafeaf6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:45 +0000
Subject: [PATCH 23/89] fix: org() of a label that is never defined is an error

---
 Core/ExpressionFunctions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index e650b38..61cb0cb 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -611,6 +611,12 @@ ExpressionValue expLabelFuncOrg(const Identifier &funcName, const std::vector<st
 		if (!label)
 			return ExpressionValue();
 
+		if (!label->isDefined())
+		{
+			Logger::queueError(Logger::Error, "%s: undefined label %s", funcName, label->getName());
+			return ExpressionValue();
+		}
+
 		return ExpressionValue(parameters.front()->getValue());
 	}
 
-- 
2.43.0


From 1edff1c05eca68bf8d8927a6dee9e5fa6f8b5424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:17 +0000
Subject: [PATCH 24/89] fix: lay out again when an area has moved

A region whose position depended on a label that settled late moved after
automatic regions had been placed in it, which were then overwritten.
---
 Commands/CDirectiveArea.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Commands/CDirectiveArea.cpp b/Commands/CDirectiveArea.cpp
index 4580dd0..57e1357 100644
--- a/Commands/CDirectiveArea.cpp
+++ b/Commands/CDirectiveArea.cpp
@@ -87,7 +87,7 @@ bool CDirectiveArea::Validate(const ValidateState &state)
 	if (fillExpression.isLoaded() || shared)
 		g_fileManager->advanceMemory(areaSize-contentSize);
 
-	if (areaSize != oldAreaSize || contentSize != oldContentSize)
+	if (areaSize != oldAreaSize || contentSize != oldContentSize || position != oldPosition)
 		result = true;
 
 	int64_t oldFileID = fileID;
-- 
2.43.0


From 8e983f96e018be3eb8eba8cda81b85c4c072d859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:42 +0000
Subject: [PATCH 25/89] fix: tell areas from regions that start at the same
 address

---
 Commands/CDirectiveArea.cpp |  8 ++++----
 Core/Allocations.cpp        | 24 ++++++++++++++----------
 Core/Allocations.h          |  9 +++++----
 3 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/Commands/CDirectiveArea.cpp b/Commands/CDirectiveArea.cpp
index 57e1357..2519f93 100644
--- a/Commands/CDirectiveArea.cpp
+++ b/Commands/CDirectiveArea.cpp
@@ -94,7 +94,7 @@ bool CDirectiveArea::Validate(const ValidateState &state)
 	fileID = g_fileManager->getOpenFileID();
 
 	if ((oldFileID != fileID || oldPosition != position || areaSize == 0) && oldAreaSize != 0)
-		Allocations::forgetArea(oldFileID, oldPosition, oldAreaSize);
+		Allocations::forgetArea(oldFileID, oldPosition, oldAreaSize, shared);
 	if (areaSize != 0)
 		Allocations::setArea(fileID, position, areaSize, contentSize, fillExpression.isLoaded(), shared);
 
@@ -114,7 +114,7 @@ void CDirectiveArea::Encode() const
 
 	if (fillExpression.isLoaded())
 	{
-		int64_t subAreaUsage = Allocations::getSubAreaUsage(fileID, position);
+		int64_t subAreaUsage = Allocations::getSubAreaUsage(fileID, position, shared);
 		if (subAreaUsage != 0)
 			g_fileManager->advanceMemory(subAreaUsage);
 
@@ -150,7 +150,7 @@ void CDirectiveArea::writeTempData(TempData& tempData) const
 
 	if (fillExpression.isLoaded() && !shared)
 	{
-		int64_t subAreaUsage = Allocations::getSubAreaUsage(fileID, position);
+		int64_t subAreaUsage = Allocations::getSubAreaUsage(fileID, position, shared);
 		if (subAreaUsage != 0)
 			tempData.writeLine(position+contentSize, tfm::format(".skip 0x%08llX",subAreaUsage));
 
@@ -169,7 +169,7 @@ void CDirectiveArea::writeSymData(SymbolData& symData) const
 
 	if (fillExpression.isLoaded())
 	{
-		int64_t subAreaUsage = Allocations::getSubAreaUsage(fileID, position);
+		int64_t subAreaUsage = Allocations::getSubAreaUsage(fileID, position, shared);
 		symData.addData(position+contentSize+subAreaUsage,areaSize-contentSize-subAreaUsage,SymbolData::Data8);
 	}
 }
diff --git a/Core/Allocations.cpp b/Core/Allocations.cpp
index 22bb995..866cf1d 100644
--- a/Core/Allocations.cpp
+++ b/Core/Allocations.cpp
@@ -26,13 +26,13 @@ void Allocations::clear()
 
 void Allocations::setArea(int64_t fileID, int64_t position, int64_t space, int64_t usage, bool usesFill, bool shared)
 {
-	Key key{ fileID, position };
+	Key key{ fileID, position, shared };
 	allocations[key] = Usage{ space, usage, usesFill, shared, true };
 }
 
-void Allocations::forgetArea(int64_t fileID, int64_t position, int64_t space)
+void Allocations::forgetArea(int64_t fileID, int64_t position, int64_t space, bool shared)
 {
-	Key key{ fileID, position };
+	Key key{ fileID, position, shared };
 	auto it = allocations.find(key);
 	if (it != allocations.end() && it->second.space == space)
 		allocations.erase(it);
@@ -42,13 +42,13 @@ void Allocations::forgetArea(int64_t fileID, int64_t position, int64_t space)
 
 void Allocations::setPool(int64_t fileID, int64_t position, int64_t size)
 {
-	Key key{ fileID, position };
+	Key key{ fileID, position, false };
 	pools[key] = size;
 }
 
 void Allocations::forgetPool(int64_t fileID, int64_t position, int64_t size)
 {
-	Key key{ fileID, position };
+	Key key{ fileID, position, false };
 	auto it = pools.find(key);
 	if (it != pools.end() && it->second == size)
 		pools.erase(it);
@@ -122,9 +122,9 @@ bool Allocations::canTrimSpace()
 	return keptPositions;
 }
 
-int64_t Allocations::getSubAreaUsage(int64_t fileID, int64_t position)
+int64_t Allocations::getSubAreaUsage(int64_t fileID, int64_t position, bool shared)
 {
-	Key key{ fileID, position };
+	Key key{ fileID, position, shared };
 	// For safety, just find the end of the last sub area.
 	int64_t maxExtent = 0;
 	auto range = subAreas.equal_range(key);
@@ -147,7 +147,7 @@ void Allocations::validateOverlap()
 {
 	// An easy mistake to make is a "subarea" where the parent area fills, and erases the subarea.
 	// Let's detect any sort of area overlap and report a warning.
-	Key lastKey{ -1, -1 };
+	Key lastKey{ -1, -1, false };
 	int64_t lastEndPosition = -1;
 	Usage lastUsage{};
 
@@ -169,6 +169,10 @@ void Allocations::validateOverlap()
 			}
 		}
 
+		// An area and a region that start together are nested: compare with the outer one.
+		if (it.first.fileID == lastKey.fileID && it.first.position == lastKey.position && it.first.position + it.second.space <= lastEndPosition)
+			continue;
+
 		lastKey = it.first;
 		lastUsage = it.second;
 		lastUsage.usage += getSubAreaUsage(lastKey);
@@ -187,7 +191,7 @@ AllocationStats Allocations::collectStats()
 void Allocations::collectAreaStats(AllocationStats &stats)
 {
 	// Need to work out overlaps.
-	Key lastKey{ -1, -1 };
+	Key lastKey{ -1, -1, false };
 	int64_t lastEndPosition = -1;
 	Usage lastUsage{};
 
@@ -226,7 +230,7 @@ void Allocations::collectAreaStats(AllocationStats &stats)
 
 	for (auto it : allocations)
 	{
-		if (it.first.fileID == lastKey.fileID && it.first.position > lastKey.position && it.first.position < lastEndPosition)
+		if (it.first.fileID == lastKey.fileID && it.first.position >= lastKey.position && it.first.position < lastEndPosition)
 		{
 			// Overlap, merge.
 			int64_t lastUsageEnd = lastKey.position + lastUsage.usage;
diff --git a/Core/Allocations.h b/Core/Allocations.h
index 68486ba..561471f 100644
--- a/Core/Allocations.h
+++ b/Core/Allocations.h
@@ -32,14 +32,14 @@ class Allocations
 public:
 	static void clear();
 	static void setArea(int64_t fileID, int64_t position, int64_t space, int64_t usage, bool usesFill, bool shared);
-	static void forgetArea(int64_t fileID, int64_t position, int64_t space);
+	static void forgetArea(int64_t fileID, int64_t position, int64_t space, bool shared);
 
 	static void setPool(int64_t fileID, int64_t position, int64_t size);
 	static void forgetPool(int64_t fileID, int64_t position, int64_t size);
 
 	static void clearSubAreas();
 	static bool allocateSubArea(int64_t fileID, int64_t& position, int64_t minRange, int64_t maxRange, int64_t size);
-	static int64_t getSubAreaUsage(int64_t fileID, int64_t position);
+	static int64_t getSubAreaUsage(int64_t fileID, int64_t position, bool shared);
 
 	static bool canTrimSpace();
 
@@ -51,10 +51,11 @@ private:
 	{
 		int64_t fileID;
 		int64_t position;
+		bool shared;	// an area may start where a region does
 
 		inline bool operator <(const Allocations::Key &other) const
 		{
-			return std::tie(fileID, position) < std::tie(other.fileID, other.position);
+			return std::tie(fileID, position, shared) < std::tie(other.fileID, other.position, other.shared);
 		}
 	};
 	struct Usage
@@ -77,7 +78,7 @@ private:
 
 	static int64_t getSubAreaUsage(Key key)
 	{
-		return getSubAreaUsage(key.fileID, key.position);
+		return getSubAreaUsage(key.fileID, key.position, key.shared);
 	}
 
 	static std::map<Key, Usage> allocations;
-- 
2.43.0


From 1c0170edb4f7448c7dbd176a2925462fffff2864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:52 +0000
Subject: [PATCH 26/89] fix: filling a region stops at its end when a larger
 one is defined at its address

---
 Commands/CDirectiveArea.cpp | 12 +++++++++---
 Commands/CDirectiveArea.h   |  2 ++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/Commands/CDirectiveArea.cpp b/Commands/CDirectiveArea.cpp
index 2519f93..96268de 100644
--- a/Commands/CDirectiveArea.cpp
+++ b/Commands/CDirectiveArea.cpp
@@ -101,6 +101,12 @@ bool CDirectiveArea::Validate(const ValidateState &state)
 	return result;
 }
 
+int64_t CDirectiveArea::getSubAreaUsage() const
+{
+	// A larger region defined at the same address may have more sub areas than fit into this one.
+	return std::min(Allocations::getSubAreaUsage(fileID, position, shared), areaSize-contentSize);
+}
+
 void CDirectiveArea::Encode() const
 {
 	if (positionExpression.isLoaded())
@@ -114,7 +120,7 @@ void CDirectiveArea::Encode() const
 
 	if (fillExpression.isLoaded())
 	{
-		int64_t subAreaUsage = Allocations::getSubAreaUsage(fileID, position, shared);
+		int64_t subAreaUsage = getSubAreaUsage();
 		if (subAreaUsage != 0)
 			g_fileManager->advanceMemory(subAreaUsage);
 
@@ -150,7 +156,7 @@ void CDirectiveArea::writeTempData(TempData& tempData) const
 
 	if (fillExpression.isLoaded() && !shared)
 	{
-		int64_t subAreaUsage = Allocations::getSubAreaUsage(fileID, position, shared);
+		int64_t subAreaUsage = getSubAreaUsage();
 		if (subAreaUsage != 0)
 			tempData.writeLine(position+contentSize, tfm::format(".skip 0x%08llX",subAreaUsage));
 
@@ -169,7 +175,7 @@ void CDirectiveArea::writeSymData(SymbolData& symData) const
 
 	if (fillExpression.isLoaded())
 	{
-		int64_t subAreaUsage = Allocations::getSubAreaUsage(fileID, position, shared);
+		int64_t subAreaUsage = getSubAreaUsage();
 		symData.addData(position+contentSize+subAreaUsage,areaSize-contentSize-subAreaUsage,SymbolData::Data8);
 	}
 }
diff --git a/Commands/CDirectiveArea.h b/Commands/CDirectiveArea.h
index 7677633..118f1f9 100644
--- a/Commands/CDirectiveArea.h
+++ b/Commands/CDirectiveArea.h
@@ -15,6 +15,8 @@ public:
 	void setPositionExpression(Expression& exp);
 	void setContent(std::unique_ptr<CAssemblerCommand> content) { this->content = std::move(content); }
 private:
+	int64_t getSubAreaUsage() const;
+
 	bool shared;
 	int64_t position = 0;
 	Expression sizeExpression;
-- 
2.43.0


From 3593ec96236444a7f00f32d2ce074919b4ea0fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:41 +0000
Subject: [PATCH 27/89] fix: warn about a negative header size only where the
 file is opened

---
 Core/FileManager.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Core/FileManager.cpp b/Core/FileManager.cpp
index 287f1fc..4781174 100644
--- a/Core/FileManager.cpp
+++ b/Core/FileManager.cpp
@@ -26,14 +26,14 @@ inline uint16_t swapEndianness16(uint16_t value)
 GenericAssemblerFile::GenericAssemblerFile(const fs::path& fileName, int64_t headerSize, bool overwrite)
 	: originalHeaderSize(headerSize), headerSize(headerSize), fileName(fileName)
 {
-	this->seekPhysical(0);
+	virtualAddress = headerSize;
 	mode = overwrite ? Create : Open;
 }
 
 GenericAssemblerFile::GenericAssemblerFile(const fs::path& fileName, const fs::path& originalFileName, int64_t headerSize)
 	: originalHeaderSize(headerSize), headerSize(headerSize), fileName(fileName), originalName(originalFileName)
 {
-	this->seekPhysical(0);
+	virtualAddress = headerSize;
 	mode = Copy;
 }
 
@@ -88,6 +88,9 @@ bool GenericAssemblerFile::open(bool onlyCheck)
 	}
 
 	// else only check if it can be done, don't actually do it permanently
+	if (virtualAddress < 0)
+		Logger::queueError(Logger::Warning, "Seeking to physical address with negative virtual address");
+
 	bool exists = false;
 	fs::ofstream temp;
 	switch (mode)
-- 
2.43.0


From 095854999603b984cf6374c34cd572bf240aa969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:48 +0000
Subject: [PATCH 28/89] fix: spelling out function calls and strings of an
 expression

---
 Core/Expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index 245c025..0860c65 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -726,12 +726,12 @@ static std::string escapeString(const std::string& text)
 	replaceAll(result,R"(\)",R"(\\)");
 	replaceAll(result,R"(")",R"(\")");
 
-	return tfm::format(R"("%s")",text);
+	return tfm::format(R"("%s")",result);
 }
 
 std::string ExpressionInternal::formatFunctionCall()
 {
-	std::string text = valueAs<StringLiteral>().string() + "(";
+	std::string text = valueAs<Identifier>().string() + "(";
 
 	for (size_t i = 0; i < children.size(); i++)
 	{
-- 
2.43.0


From 3086baa7b3bffcf786629c29ed80beaec5732b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:44 +0000
Subject: [PATCH 29/89] fix: negative label values on the command line

---
 Main/CommandLineInterface.cpp | 8 +++++++-
 Util/Util.cpp                 | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Main/CommandLineInterface.cpp b/Main/CommandLineInterface.cpp
index f423c93..3734619 100644
--- a/Main/CommandLineInterface.cpp
+++ b/Main/CommandLineInterface.cpp
@@ -148,12 +148,18 @@ static bool parseArguments(const std::vector<std::string>& arguments, ArmipsArgu
 				}
 
 				int64_t value;
-				if (!stringToInt(arguments[argpos + 2], 0, arguments[argpos + 2].size(), value))
+				const std::string &text = arguments[argpos + 2];
+				bool negative = text.size() > 1 && text[0] == '-';
+
+				if (text.empty() || !stringToInt(text, negative ? 1 : 0, text.size(), value))
 				{
 					Logger::printError(Logger::Error, "Invalid label value \"%s\"", arguments[argpos + 2]);
 					return false;
 				}
 
+				if (negative)
+					value = -value;
+
 				settings.labels.emplace_back(LabelDefinition{name, value});
 				argpos += 3;
 			}
diff --git a/Util/Util.cpp b/Util/Util.cpp
index bbc6b1d..cb715c2 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -94,7 +94,7 @@ bool stringToInt(const std::string& line, size_t start, size_t end, int64_t& res
 
 		int32_t value = c >= 'a' ? c-'a'+10 : c-'0';
 
-		if (value >= base)
+		if (value < 0 || value >= base)
 			return false;
 
 		result = (result*base) + value;
-- 
2.43.0


From dfe16db7b3a674a46c7cc4a769713e01b72e2ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:19 +0000
Subject: [PATCH 30/89] fix: clearing an encoding table also forgets its keys
 and termination

---
 Util/EncodingTable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Util/EncodingTable.cpp b/Util/EncodingTable.cpp
index 373b35b..ad1c9a4 100644
--- a/Util/EncodingTable.cpp
+++ b/Util/EncodingTable.cpp
@@ -78,6 +78,8 @@ void EncodingTable::clear()
 {
 	hexData.clear();
 	entries.clear();
+	lookup = Trie();
+	terminationEntry = TableEntry();
 }
 
 int parseHexString(std::string& hex, unsigned char* dest)
-- 
2.43.0


From a1f5340e6148646f7fb2c0dfa0a1d8c3ec32c279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:20 +0000
Subject: [PATCH 31/89] fix: text before the first .loadtable does not use a
 table loaded later

---
 Core/Assembler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index 8c6b2b4..e381f4f 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -39,6 +39,7 @@ bool encodeAssembly(std::unique_ptr<CAssemblerCommand> content, SymbolData& symD
 
 		g_fileManager->reset();
 		Allocations::clearSubAreas();
+		Global.Table.clear();
 
 #ifdef _DEBUG
 		if (!Logger::isSilent())
-- 
2.43.0


From 3bfbe2286dcd99603d667b4493320e16f54e5e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:00 +0000
Subject: [PATCH 32/89] fix: sizes of nested functions and of functions at the
 same address in the symbol file

---
 Commands/CAssemblerLabel.cpp |  3 ++-
 Commands/CAssemblerLabel.h   |  1 +
 Core/ELF/ElfRelocator.cpp    |  2 +-
 Core/SymbolData.cpp          | 24 ++++++++++--------------
 Core/SymbolData.h            |  6 ++++--
 5 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/Commands/CAssemblerLabel.cpp b/Commands/CAssemblerLabel.cpp
index 3ca67dd..179b8bb 100644
--- a/Commands/CAssemblerLabel.cpp
+++ b/Commands/CAssemblerLabel.cpp
@@ -116,6 +116,7 @@ void CAssemblerLabel::writeSymData(SymbolData& symData) const
 CDirectiveFunction::CDirectiveFunction(const Identifier& name, const Identifier& originalName)
 {
 	this->label = std::make_unique<CAssemblerLabel>(name,originalName);
+	this->name = originalName.string();
 	this->content = nullptr;
 	this->start = this->end = 0;
 }
@@ -153,7 +154,7 @@ void CDirectiveFunction::writeTempData(TempData& tempData) const
 
 void CDirectiveFunction::writeSymData(SymbolData& symData) const
 {
-	symData.startFunction(start);
+	symData.startFunction(start, name);
 	label->writeSymData(symData);
 	content->writeSymData(symData);
 	symData.endFunction(end);
diff --git a/Commands/CAssemblerLabel.h b/Commands/CAssemblerLabel.h
index 61121cf..0ea46fe 100644
--- a/Commands/CAssemblerLabel.h
+++ b/Commands/CAssemblerLabel.h
@@ -34,6 +34,7 @@ public:
 	void setContent(std::unique_ptr<CAssemblerCommand> content) { this->content = std::move(content); }
 private:
 	std::unique_ptr<CAssemblerLabel> label;
+	std::string name;
 	std::unique_ptr<CAssemblerCommand> content;
 	int64_t start, end;
 };
diff --git a/Core/ELF/ElfRelocator.cpp b/Core/ELF/ElfRelocator.cpp
index 3401bd5..67fc70e 100644
--- a/Core/ELF/ElfRelocator.cpp
+++ b/Core/ELF/ElfRelocator.cpp
@@ -505,7 +505,7 @@ void ElfRelocator::writeSymbols(SymbolData& symData) const
 				symData.addData(sym.relocatedAddress,sym.size,SymbolData::Data8);
 				break;
 			case STT_FUNC:
-				symData.startFunction(sym.relocatedAddress);
+				symData.startFunction(sym.relocatedAddress, sym.name);
 				symData.endFunction(sym.relocatedAddress+sym.size);
 				break;
 			}
diff --git a/Core/SymbolData.cpp b/Core/SymbolData.cpp
index ce03c99..83fd081 100644
--- a/Core/SymbolData.cpp
+++ b/Core/SymbolData.cpp
@@ -18,7 +18,7 @@ void SymbolData::clear()
 	modules.clear();
 	files.clear();
 	currentModule = 0;
-	currentFunction = -1;
+	openFunctions.clear();
 	
 	SymDataModule defaultModule;
 	defaultModule.file = nullptr;
@@ -54,7 +54,7 @@ void SymbolData::writeNocashSym()
 			size_t size = 0;
 			for (size_t f = 0; f < module.functions.size(); f++)
 			{
-				if (module.functions[f].address == sym.address)
+				if (module.functions[f].address == sym.address && module.functions[f].name == sym.name)
 				{
 					size = module.functions[f].size;
 					break;
@@ -197,25 +197,21 @@ void SymbolData::endModule(AssemblerFile* file)
 		return;
 	}
 
-	if (currentFunction != -1)
+	if (!openFunctions.empty())
 	{
 		Logger::printError(Logger::Error, "Module closed before function end");
-		currentFunction = -1;
+		openFunctions.clear();
 	}
 
 	currentModule = 0;
 }
 
-void SymbolData::startFunction(int64_t address)
+void SymbolData::startFunction(int64_t address, const std::string& name)
 {
-	if (currentFunction != -1)
-	{
-		endFunction(address);
-	}
-
-	currentFunction = (int)modules[currentModule].functions.size();
+	openFunctions.push_back(modules[currentModule].functions.size());
 
 	SymDataFunction func;
+	func.name = name;
 	func.address = address;
 	func.size = 0;
 	modules[currentModule].functions.push_back(func);
@@ -223,13 +219,13 @@ void SymbolData::startFunction(int64_t address)
 
 void SymbolData::endFunction(int64_t address)
 {
-	if (currentFunction == -1)
+	if (openFunctions.empty())
 	{
 		Logger::printError(Logger::Error, "Not inside a function");
 		return;
 	}
 
-	SymDataFunction& func = modules[currentModule].functions[currentFunction];
+	SymDataFunction& func = modules[currentModule].functions[openFunctions.back()];
 	func.size = (size_t) (address-func.address);
-	currentFunction = -1;
+	openFunctions.pop_back();
 }
diff --git a/Core/SymbolData.h b/Core/SymbolData.h
index cd5a9a4..66c3aec 100644
--- a/Core/SymbolData.h
+++ b/Core/SymbolData.h
@@ -34,6 +34,7 @@ struct SymDataAddressInfo
 
 struct SymDataFunction
 {
+	std::string name;
 	int64_t address;
 	size_t size;
 	
@@ -89,7 +90,7 @@ public:
 	void addData(int64_t address, size_t size, DataType type);
 	void startModule(AssemblerFile* file);
 	void endModule(AssemblerFile* file);
-	void startFunction(int64_t address);
+	void startFunction(int64_t address, const std::string& name);
 	void endFunction(int64_t address);
 private:
 	void writeNocashSym();
@@ -103,5 +104,6 @@ private:
 	std::vector<SymDataModule> modules;
 	std::vector<std::string> files;
 	int currentModule;
-	int currentFunction;
+	// functions that have started but not ended, innermost last
+	std::vector<size_t> openFunctions;
 };
-- 
2.43.0


From 8ac8ac577cd22518d3706d3cbd618ecc3148b83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:48 +0000
Subject: [PATCH 33/89] fix: operand patterns with floating point numbers match
 that number only

---
 Parser/Parser.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index cc37fa2..9e92ff2 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -946,7 +946,16 @@ bool TokenSequenceParser::parse(Parser& parser, int& result)
 				}
 				
 				values++;
-			} 
+			} else if (type == TokenType::Float)
+			{
+				if (values == entry.values.end() || values->floatValue != token.floatValue())
+				{
+					valid = false;
+					break;
+				}
+				
+				values++;
+			}
 		}
 
 		if (valid && values == entry.values.end())
-- 
2.43.0


From 684c98eace5635954de249e2719ec14373e9b9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:48 +0000
Subject: [PATCH 34/89] fix: SuperH immediates, displacements and branch
 targets out of range are rejected, valid ones accepted

---
 Archs/SuperH/CShInstruction.cpp | 54 ++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/Archs/SuperH/CShInstruction.cpp b/Archs/SuperH/CShInstruction.cpp
index 2b1fc64..b6f9892 100644
--- a/Archs/SuperH/CShInstruction.cpp
+++ b/Archs/SuperH/CShInstruction.cpp
@@ -54,15 +54,17 @@ bool CShInstruction::Validate(const ValidateState &state)
 	// check immediates
 	if (immediateData.primary.type != ShImmediateType::None)
 	{
+		int64_t value = immediateData.primary.value;
+
 		if (immediateData.primary.expression.isLoaded())
 		{
-			if (!immediateData.primary.expression.evaluateInteger(immediateData.primary.value))
+			if (!immediateData.primary.expression.evaluateInteger(value))
 			{
 				Logger::queueError(Logger::Error, "Invalid immediate expression");
 				return false;
 			}
 
-			immediateData.primary.originalValue = immediateData.primary.value;
+			immediateData.primary.originalValue = (int)value;
 		}
 		
 		g_fileManager->advanceMemory(2);
@@ -76,10 +78,8 @@ bool CShInstruction::Validate(const ValidateState &state)
 		if (opflags & SH_MUSTBEALIGNED)	// immediate must be aligned
 		{
 			if (opflags & SH_PCRELMANUAL)
-				immediateData.primary.value += (int)RamPos;
-		
-			uint64_t value = immediateData.primary.value;
-		
+				value += RamPos;
+
 			if ((opflags & SH_IMM16) && (value % 2))
 			{
 				Logger::queueError(Logger::Error, "Immediate must be 2-byte aligned");
@@ -94,39 +94,39 @@ bool CShInstruction::Validate(const ValidateState &state)
 		}
 
 		int immediateBits = getImmediateBits(immediateData.primary.type);
-		int maxImmediate = ((1 << immediateBits) - 1);
+		int64_t maxImmediate = ((1 << immediateBits) - 1);
+		int scale = (opflags & SH_IMM32) ? 4 : (opflags & SH_IMM16) ? 2 : 1;
 
 		if (opflags & SH_IMMREL || opflags & SH_PCRELMANUAL) // relative
 		{
-			int range    = maxImmediate * (opflags & SH_IMM32 ? 4 : 2);
-			int hiRange  = (opflags & SH_IMMSIGNED) ?  (range/2) : range;
-			int lowRange = (opflags & SH_IMMSIGNED) ? -(range/2) : 0;
+			int64_t hiRange  = (opflags & SH_IMMSIGNED) ?  (maxImmediate/2)*scale : maxImmediate*scale;
+			int64_t lowRange = (opflags & SH_IMMSIGNED) ? -(maxImmediate/2+1)*scale : 0;
 
-			int64_t num = (int64_t) (immediateData.primary.value - immRelAddr);
+			// addresses have 32 bits, whether they are written with a sign or not
+			int64_t num = (int32_t) (value - immRelAddr);
 
-			if (num > hiRange || num < lowRange)
+			if (value < INT32_MIN || value > UINT32_MAX || num > hiRange || num < lowRange)
 			{
-				Logger::queueError(Logger::Error, "Branch/move target %08X out of range", immediateData.primary.value);
+				Logger::queueError(Logger::Error, "Branch/move target %08X out of range", value);
 				return false;
 			}
-			immediateData.primary.value = (int)num;
+			value = num;
 		}
-
-		if (opflags & SH_IMM16)
-			immediateData.primary.value = immediateData.primary.value >> 1;
-		else if (opflags & SH_IMM32)
-			immediateData.primary.value = immediateData.primary.value >> 2;
-		
-		unsigned int mask = (0xFFFFFFFF << (32-immediateBits)) >> (32-immediateBits);
-		int digits = (immediateBits+3) / 4;
-
-		if ((unsigned int)std::abs(immediateData.primary.value) > mask)
+		else
 		{
-			Logger::queueError(Logger::Error, "Immediate value 0x%0*X out of range",digits,immediateData.primary.value);
-			return false;
+			// immediates can be written with or without a sign, displacements are unsigned
+			bool isDisplacement = opcodeData.opcode.format != SHFMT_I && opcodeData.opcode.format != SHFMT_NI;
+			int64_t lowRange = isDisplacement ? 0 : -(maxImmediate/2+1)*scale;
+			int digits = (immediateBits+3) / 4;
+
+			if (value > maxImmediate*scale || value < lowRange)
+			{
+				Logger::queueError(Logger::Error, "Immediate value 0x%0*X out of range",digits,value);
+				return false;
+			}
 		}
 
-		immediateData.primary.value &= mask;
+		immediateData.primary.value = (int)((value / scale) & maxImmediate);
 	}
 
 	if (!memoryAdvanced)
-- 
2.43.0


From 958e618990fecd561045cb96b9d8e89fdfe90627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:48 +0000
Subject: [PATCH 35/89] fix: SuperH indirect operands are not accepted as plain
 registers

---
 Archs/SuperH/ShParser.cpp | 14 ++++++++++----
 Archs/SuperH/ShParser.h   |  1 +
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/Archs/SuperH/ShParser.cpp b/Archs/SuperH/ShParser.cpp
index 813d6cb..c061aff 100644
--- a/Archs/SuperH/ShParser.cpp
+++ b/Archs/SuperH/ShParser.cpp
@@ -82,7 +82,13 @@ bool ShParser::parseRegisterTable(Parser& parser, ShRegisterValue& dest, const S
 bool ShParser::parseRegister(Parser& parser, ShRegisterValue& dest)
 {
 	dest.type = ShRegisterType::Normal;
-	return parseRegisterTable(parser, dest, shRegisters, 32);
+	return parseRegisterTable(parser, dest, shRegisters, 16);
+}
+
+bool ShParser::parseIndirectRegister(Parser& parser, ShRegisterValue& dest)
+{
+	dest.type = ShRegisterType::Normal;
+	return parseRegisterTable(parser, dest, shRegisters + 16, 16);
 }
 
 bool ShParser::parseImmediate(Parser& parser, Expression& dest)
@@ -95,7 +101,7 @@ bool ShParser::parseImmediate(Parser& parser, Expression& dest)
 		parser.eatToken();
 
 	ShRegisterValue tempValue;
-	bool isRegister = parseRegister(parser,tempValue);
+	bool isRegister = parseRegister(parser,tempValue) || parseIndirectRegister(parser,tempValue);
 	parser.getTokenizer()->setPosition(pos);
 
 	if (isRegister)
@@ -254,11 +260,11 @@ bool ShParser::parseParameters(Parser& parser, const tShOpcode& opcode)
 				return false;
 			if (*encoding == 't')
 			{
-				CHECK(parseRegister(parser,registers.grt));
+				CHECK(parseIndirectRegister(parser,registers.grt));
 			}
 			else if (*encoding == 's')
 			{
-				CHECK(parseRegister(parser,registers.grs));
+				CHECK(parseIndirectRegister(parser,registers.grs));
 			}
 			else if (*encoding == '(' || *encoding == '-') // "mov.* r0,@(i4,t)", "mov.* s,@-t" and the others
 			{
diff --git a/Archs/SuperH/ShParser.h b/Archs/SuperH/ShParser.h
index 466d63e..4c519cf 100644
--- a/Archs/SuperH/ShParser.h
+++ b/Archs/SuperH/ShParser.h
@@ -23,6 +23,7 @@ public:
 private:
 	bool parseRegisterTable(Parser& parser, ShRegisterValue& dest, const ShRegisterDescriptor* table, size_t count);
 	bool parseRegister(Parser& parser, ShRegisterValue& dest);
+	bool parseIndirectRegister(Parser& parser, ShRegisterValue& dest);
 	bool parseImmediate(Parser& parser, Expression& dest);
 
 	bool decodeOpcode(Parser& parser, const tShOpcode& opcode);
-- 
2.43.0


From 2c04d2a27c92779db2fb8fd88091f40255517b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:48 +0000
Subject: [PATCH 36/89] fix: condition numbers of vcmovt/vcmovf have three bits

---
 Archs/MIPS/CMipsInstruction.cpp | 3 +++
 Archs/MIPS/CMipsInstruction.h   | 1 +
 Archs/MIPS/MipsOpcodes.cpp      | 4 ++--
 Archs/MIPS/MipsParser.cpp       | 3 +++
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/Archs/MIPS/CMipsInstruction.cpp b/Archs/MIPS/CMipsInstruction.cpp
index 312c8eb..4ac16f7 100644
--- a/Archs/MIPS/CMipsInstruction.cpp
+++ b/Archs/MIPS/CMipsInstruction.cpp
@@ -27,6 +27,8 @@ int getImmediateBits(MipsImmediateType type)
 {
 	switch (type)
 	{
+	case MipsImmediateType::Immediate3:
+		return 3;
 	case MipsImmediateType::Immediate5:
 		return 5;
 	case MipsImmediateType::Immediate7:
@@ -338,6 +340,7 @@ void CMipsInstruction::encodeVfpu() const
 	
 	switch (immediateData.primary.type)
 	{
+	case MipsImmediateType::Immediate3:
 	case MipsImmediateType::Immediate5:
 		encoding |= immediateData.primary.value << 16;
 		break;
diff --git a/Archs/MIPS/CMipsInstruction.h b/Archs/MIPS/CMipsInstruction.h
index 0ed29c6..fe62c8c 100644
--- a/Archs/MIPS/CMipsInstruction.h
+++ b/Archs/MIPS/CMipsInstruction.h
@@ -27,6 +27,7 @@ enum class MipsRegisterType
 enum class MipsImmediateType
 {
 	None,
+	Immediate3,
 	Immediate5,
 	Immediate10,
 	Immediate16,
diff --git a/Archs/MIPS/MipsOpcodes.cpp b/Archs/MIPS/MipsOpcodes.cpp
index 6e00cd6..ed45cb0 100644
--- a/Archs/MIPS/MipsOpcodes.cpp
+++ b/Archs/MIPS/MipsOpcodes.cpp
@@ -696,8 +696,8 @@ const tMipsOpcode MipsOpcodes[] = {
 	{ "vf2iu.S",	"vd,vs,i5",	MIPS_VFPU4(0x12),			MA_PSP,		MO_VFPU },
 	{ "vf2id.S",	"vd,vs,i5",	MIPS_VFPU4(0x13),			MA_PSP,		MO_VFPU },
 	{ "vi2f.S",		"vd,vs,i5",	MIPS_VFPU4(0x14),			MA_PSP,		MO_VFPU },
-	{ "vcmovt.S",	"vd,vs,i5",	MIPS_VFPU4(0x15)|0,  		MA_PSP,		MO_VFPU },
-	{ "vcmovf.S",	"vd,vs,i5",	MIPS_VFPU4(0x15)|(1<<19),	MA_PSP,		MO_VFPU },
+	{ "vcmovt.S",	"vd,vs,i3",	MIPS_VFPU4(0x15)|0,  		MA_PSP,		MO_VFPU },
+	{ "vcmovf.S",	"vd,vs,i3",	MIPS_VFPU4(0x15)|(1<<19),	MA_PSP,		MO_VFPU },
 	{ "vwbn.S",		"vd,vs,i5",	MIPS_VFPU4(0x18),			MA_PSP,		MO_VFPU },
 
 //     31-------------21-------16--------------------------------------0
diff --git a/Archs/MIPS/MipsParser.cpp b/Archs/MIPS/MipsParser.cpp
index fad5f2e..17e4c0a 100644
--- a/Archs/MIPS/MipsParser.cpp
+++ b/Archs/MIPS/MipsParser.cpp
@@ -1147,6 +1147,9 @@ static bool decodeImmediateSize(const char*& encoding, MipsImmediateType& dest)
 
 		switch (num)
 		{
+		case 3:
+			dest = MipsImmediateType::Immediate3;
+			break;
 		case 5:
 			dest = MipsImmediateType::Immediate5;
 			break;
-- 
2.43.0


From 3730f6cd8fe0d84582e09dfb61d0a6ec1498557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:52 +0000
Subject: [PATCH 37/89] fix: MIPS immediates and branch targets that do not fit
 their field are rejected

---
 Archs/MIPS/CMipsInstruction.cpp | 41 +++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/Archs/MIPS/CMipsInstruction.cpp b/Archs/MIPS/CMipsInstruction.cpp
index 4ac16f7..f12e2cd 100644
--- a/Archs/MIPS/CMipsInstruction.cpp
+++ b/Archs/MIPS/CMipsInstruction.cpp
@@ -69,6 +69,11 @@ bool CMipsInstruction::immediateToHalfFloat(int &out)
 	}
 }
 
+static bool fitsIn32Bits(int64_t value)
+{
+	return value >= INT32_MIN && value <= UINT32_MAX;
+}
+
 bool CMipsInstruction::Validate(const ValidateState &state)
 {
 	bool Result = false;
@@ -96,7 +101,16 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 			}
 			else
 			{
-				isValidExpression = immediateData.primary.expression.evaluateInteger(immediateData.primary.value);
+				int64_t fullValue;
+				isValidExpression = immediateData.primary.expression.evaluateInteger(fullValue);
+
+				if (isValidExpression && !fitsIn32Bits(fullValue))
+				{
+					Logger::queueError(Logger::Error, "Immediate value 0x%X out of range",fullValue);
+					return false;
+				}
+
+				immediateData.primary.value = (int) fullValue;
 			}
 
 			if (!isValidExpression)
@@ -117,6 +131,12 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 			}
 		}
 
+		if ((opcodeData.opcode.flags & (MO_IPCA|MO_IPCR)) && (immediateData.primary.value % 4))
+		{
+			Logger::queueError(Logger::Error, "Branch target %08X not word aligned",immediateData.primary.value);
+			return false;
+		}
+
 		if (opcodeData.opcode.flags & MO_NEGIMM) 		// negated immediate
 		{
 			immediateData.primary.value = -immediateData.primary.value;
@@ -154,7 +174,9 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 		unsigned int mask = (0xFFFFFFFF << (32-immediateBits)) >> (32-immediateBits);
 		int digits = (immediateBits+3) / 4;
 
-		if ((unsigned int)std::abs(immediateData.primary.value) > mask)
+		// both signed and unsigned values are allowed
+		int64_t fieldValue = immediateData.primary.value;
+		if (fieldValue > (int64_t)mask || fieldValue < -((int64_t)mask+1)/2)
 		{
 			Logger::queueError(Logger::Error, "Immediate value 0x%0*X out of range",digits,immediateData.primary.value);
 			return false;
@@ -167,12 +189,21 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 	{
 		if (immediateData.secondary.expression.isLoaded())
 		{
-			if (!immediateData.secondary.expression.evaluateInteger(immediateData.secondary.value))
+			int64_t fullValue;
+			if (!immediateData.secondary.expression.evaluateInteger(fullValue))
 			{
 				Logger::queueError(Logger::Error, "Invalid immediate expression");
 				return false;
 			}
 
+			if (!fitsIn32Bits(fullValue))
+			{
+				Logger::queueError(Logger::Error, "Immediate value 0x%X out of range",fullValue);
+				return false;
+			}
+
+			immediateData.secondary.value = (int) fullValue;
+
 			immediateData.secondary.originalValue = immediateData.secondary.value;
 		}
 
@@ -187,7 +218,9 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 			break;
 		case MipsImmediateType::Ext:
 		case MipsImmediateType::Ins:
-			if (immediateData.secondary.value > 32 || immediateData.secondary.value == 0)
+			if (immediateData.secondary.value > 32 || immediateData.secondary.value <= 0
+				|| (immediateData.secondary.type == MipsImmediateType::Ins
+					&& immediateData.primary.value + immediateData.secondary.value > 32))
 			{
 				Logger::queueError(Logger::Error, "Immediate value %02X out of range",immediateData.secondary.value);
 				return false;
-- 
2.43.0


From f88d8b67bfba559fe247cfc701017a16f9fbba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:52 +0000
Subject: [PATCH 38/89] fix: MIPS branches behind an inserted nop reach their
 target, load delays belong to the instruction's own processor

---
 Archs/MIPS/CMipsInstruction.cpp | 63 +++++++++++++++++++--------------
 Archs/MIPS/CMipsInstruction.h   |  2 ++
 2 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/Archs/MIPS/CMipsInstruction.cpp b/Archs/MIPS/CMipsInstruction.cpp
index f12e2cd..0c1d3b1 100644
--- a/Archs/MIPS/CMipsInstruction.cpp
+++ b/Archs/MIPS/CMipsInstruction.cpp
@@ -16,6 +16,7 @@ CMipsInstruction::CMipsInstruction(MipsOpcodeData& opcode, MipsImmediateData& im
 
 	addNop = false;
 	IgnoreLoadDelay = Mips.GetIgnoreDelay();
+	hasLoadDelay = Mips.hasLoadDelay();
 }
 
 CMipsInstruction::~CMipsInstruction()
@@ -74,19 +75,10 @@ static bool fitsIn32Bits(int64_t value)
 	return value >= INT32_MIN && value <= UINT32_MAX;
 }
 
-bool CMipsInstruction::Validate(const ValidateState &state)
+void CMipsInstruction::validateImmediates()
 {
-	bool Result = false;
-
-	bool previousNop = addNop;
-	addNop = false;
-
-	RamPos = g_fileManager->getVirtualAddress();
-	if (RamPos % 4)
-	{
-		Logger::queueError(Logger::Error, "opcode not aligned to word boundary");
-		return false;
-	}
+	// address of the instruction itself, behind the inserted nop
+	int64_t opcodePos = addNop ? RamPos+4 : RamPos;
 
 	// check immediates
 	if (immediateData.primary.type != MipsImmediateType::None)
@@ -107,7 +99,7 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 				if (isValidExpression && !fitsIn32Bits(fullValue))
 				{
 					Logger::queueError(Logger::Error, "Immediate value 0x%X out of range",fullValue);
-					return false;
+					return;
 				}
 
 				immediateData.primary.value = (int) fullValue;
@@ -116,7 +108,7 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 			if (!isValidExpression)
 			{
 				Logger::queueError(Logger::Error, "Invalid immediate expression");
-				return false;
+				return;
 			}
 
 			immediateData.primary.originalValue = immediateData.primary.value;
@@ -127,14 +119,14 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 			if (immediateData.primary.value % 4)
 			{
 				Logger::queueError(Logger::Error, "Immediate must be word aligned");
-				return false;
+				return;
 			}
 		}
 
 		if ((opcodeData.opcode.flags & (MO_IPCA|MO_IPCR)) && (immediateData.primary.value % 4))
 		{
 			Logger::queueError(Logger::Error, "Branch target %08X not word aligned",immediateData.primary.value);
-			return false;
+			return;
 		}
 
 		if (opcodeData.opcode.flags & MO_NEGIMM) 		// negated immediate
@@ -145,12 +137,12 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 			immediateData.primary.value = (immediateData.primary.value >> 2) & 0x3FFFFFF;
 		} else if (opcodeData.opcode.flags & MO_IPCR)	// relative 16 bit value
 		{
-			int num = (int) (immediateData.primary.value-RamPos-4);
+			int num = (int) (immediateData.primary.value-opcodePos-4);
 			
 			if (num >= 0x20000 || num < (-0x20000))
 			{
 				Logger::queueError(Logger::Error, "Branch target %08X out of range",immediateData.primary.value);
-				return false;
+				return;
 			}
 			immediateData.primary.value = num >> 2;
 		} else if (opcodeData.opcode.flags & (MO_RSP_HWOFFSET | MO_RSP_WOFFSET | MO_RSP_DWOFFSET | MO_RSP_QWOFFSET))
@@ -165,7 +157,7 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 			if (immediateData.primary.value & ((1 << shift) - 1))
 			{
 				Logger::queueError(Logger::Error, "Offset must be %d-byte aligned",1<<shift);
-				return false;
+				return;
 			}
 			immediateData.primary.value = immediateData.primary.value >> shift;
 		}
@@ -179,7 +171,7 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 		if (fieldValue > (int64_t)mask || fieldValue < -((int64_t)mask+1)/2)
 		{
 			Logger::queueError(Logger::Error, "Immediate value 0x%0*X out of range",digits,immediateData.primary.value);
-			return false;
+			return;
 		}
 
 		immediateData.primary.value &= mask;
@@ -193,13 +185,13 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 			if (!immediateData.secondary.expression.evaluateInteger(fullValue))
 			{
 				Logger::queueError(Logger::Error, "Invalid immediate expression");
-				return false;
+				return;
 			}
 
 			if (!fitsIn32Bits(fullValue))
 			{
 				Logger::queueError(Logger::Error, "Immediate value 0x%X out of range",fullValue);
-				return false;
+				return;
 			}
 
 			immediateData.secondary.value = (int) fullValue;
@@ -213,7 +205,7 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 			if ((unsigned int)immediateData.secondary.value > 0x1f)
 			{
 				Logger::queueError(Logger::Error, "Immediate value %02X out of range",immediateData.secondary.value);
-				return false;
+				return;
 			}
 			break;
 		case MipsImmediateType::Ext:
@@ -223,7 +215,7 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 					&& immediateData.primary.value + immediateData.secondary.value > 32))
 			{
 				Logger::queueError(Logger::Error, "Immediate value %02X out of range",immediateData.secondary.value);
-				return false;
+				return;
 			}
 		
 			immediateData.secondary.value--;
@@ -235,9 +227,24 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 			break;
 		}
 	}
+}
+
+bool CMipsInstruction::Validate(const ValidateState &state)
+{
+	bool Result = false;
+
+	bool previousNop = addNop;
+	addNop = false;
+
+	RamPos = g_fileManager->getVirtualAddress();
+	if (RamPos % 4)
+	{
+		Logger::queueError(Logger::Error, "opcode not aligned to word boundary");
+		return false;
+	}
 
 	// check load delay
-	if (Mips.hasLoadDelay() && Mips.GetLoadDelay() && !IgnoreLoadDelay)
+	if (hasLoadDelay && Mips.GetLoadDelay() && !IgnoreLoadDelay)
 	{
 		bool fix = false;
 
@@ -263,6 +270,9 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 		}
 	}
 
+	// an instruction with an invalid immediate still takes up its space
+	validateImmediates();
+
 	if ((opcodeData.opcode.flags & MO_NODELAYSLOT) && Mips.GetDelaySlot() && !IgnoreLoadDelay)
 	{
 		Logger::queueError(Logger::Error, "This instruction can't be in a delay slot");
@@ -271,8 +281,7 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 	Mips.SetDelaySlot((opcodeData.opcode.flags & MO_DELAY) != 0);
 
 	// now check if this opcode causes a load delay
-	if (Mips.hasLoadDelay())
-		Mips.SetLoadDelay((opcodeData.opcode.flags & MO_DELAYRT) != 0,registerData.grt.num);
+	Mips.SetLoadDelay(hasLoadDelay && (opcodeData.opcode.flags & MO_DELAYRT) != 0,registerData.grt.num);
 	
 	if (previousNop != addNop)
 		Result = true;
diff --git a/Archs/MIPS/CMipsInstruction.h b/Archs/MIPS/CMipsInstruction.h
index fe62c8c..02187ab 100644
--- a/Archs/MIPS/CMipsInstruction.h
+++ b/Archs/MIPS/CMipsInstruction.h
@@ -139,8 +139,10 @@ private:
 	void encodeNormal() const;
 	void encodeVfpu() const;
 	bool immediateToHalfFloat(int &out);
+	void validateImmediates();
 
 	bool IgnoreLoadDelay;
+	bool hasLoadDelay;
 	int64_t RamPos;
 	bool addNop;
 
-- 
2.43.0


From e3b805bd820621bc749a978a3b2e3635b58e93bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:32 +0000
Subject: [PATCH 39/89] fix: MIPS comparison macros with the same source and
 destination register

The immediate overwrote the register that was to be compared.
---
 Archs/MIPS/MipsMacros.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/Archs/MIPS/MipsMacros.cpp b/Archs/MIPS/MipsMacros.cpp
index 984cd76..fcce8bd 100644
--- a/Archs/MIPS/MipsMacros.cpp
+++ b/Archs/MIPS/MipsMacros.cpp
@@ -435,8 +435,8 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroSet(Parser& parser, MipsRegi
 	{
 		const char* templateImmediateEqNe = R"(
 			.if %imm% & ~0xFFFF
-				li		%rd%,%imm%
-				xor		%rd%,%rs%,%rd%
+				li		%temp%,%imm%
+				xor		%rd%,%rs%,%temp%
 			.else
 				xori	%rd%,%rs%,%imm%
 			.endif
@@ -466,11 +466,11 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroSet(Parser& parser, MipsRegi
 			.if %revcmp% && %imm% == 0
 				slt%u%	%rd%,r0,%rs%
 			.elseif %revcmp%
-				li		%rd%,%imm%
-				slt%u%	%rd%,%rd%,%rs%
+				li		%temp%,%imm%
+				slt%u%	%rd%,%temp%,%rs%
 			.elseif (%imm% < -0x8000) || (%imm% >= 0x8000)
-				li		%rd%,%imm%
-				slt%u%	%rd%,%rs%,%rd%
+				li		%temp%,%imm%
+				slt%u%	%rd%,%rs%,%temp%
 			.else
 				slti%u%	%rd%,%rs%,%imm%
 			.endif
@@ -504,6 +504,7 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroSet(Parser& parser, MipsRegi
 			{ "%ge%",		ge ? "1" : "0" },
 			{ "%revcmp%",	revcmp ? "1" : "0" },
 			{ "%rd%",		registers.grd.name.string() },
+			{ "%temp%",	registers.grd.num == registers.grs.num ? "r1" : registers.grd.name.string() },
 			{ "%rs%",		registers.grs.name.string() },
 			{ "%rt%",		registers.grt.name.string() },
 			{ "%imm%",		immediates.secondary.expression.toString() },
-- 
2.43.0


From 2add1b488b6fef178274e021114db593efc67023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:32 +0000
Subject: [PATCH 40/89] fix: unaligned MIPS macros without an offset

---
 Archs/MIPS/MipsMacros.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Archs/MIPS/MipsMacros.cpp b/Archs/MIPS/MipsMacros.cpp
index fcce8bd..3392b53 100644
--- a/Archs/MIPS/MipsMacros.cpp
+++ b/Archs/MIPS/MipsMacros.cpp
@@ -227,6 +227,10 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroLoadUnaligned(Parser& parser
 {
 	const char* selectedTemplate;
 
+	// without an explicit offset the address is that of the register
+	if ((flags & MIPSM_IMM) == 0)
+		immediates.primary.expression = createConstExpression(0);
+
 	std::string op, size;
 	int type = flags & MIPSM_ACCESSMASK;
 	if (type == MIPSM_HW || type == MIPSM_HWU)
@@ -282,6 +286,10 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroStoreUnaligned(Parser& parse
 {
 	const char* selectedTemplate;
 
+	// without an explicit offset the address is that of the register
+	if ((flags & MIPSM_IMM) == 0)
+		immediates.primary.expression = createConstExpression(0);
+
 	std::string op, size;
 	int type = flags & MIPSM_ACCESSMASK;
 	if (type == MIPSM_HW)
-- 
2.43.0


From 1d9531ed368e0e275428e479c2ddec2e5b7af27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:32 +0000
Subject: [PATCH 41/89] fix: org() in MIPS macro operands means the position of
 the macro

---
 Core/Expression.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index 0860c65..03ebc7b 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -504,6 +504,13 @@ void ExpressionInternal::replaceMemoryPos(const Identifier& identifierName)
 		fileNum = Global.FileInfo.FileNum;
 		section = Global.Section;
 	}
+	else if (type == OperatorType::FunctionCall && children.empty())
+	{
+		// without parameter, these refer to the current position as well
+		const std::string &name = valueAs<Identifier>().string();
+		if (name == "org" || name == "orga" || name == "headersize")
+			children.push_back(std::make_unique<ExpressionInternal>(identifierName));
+	}
 }
 
 ExpressionValue ExpressionInternal::executeFunctionCall()
-- 
2.43.0


From a04c98f1df6ce50d2b5d457ada1c19fda768b227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:32 +0000
Subject: [PATCH 42/89] fix: li.s keeps the full precision of the float

---
 Archs/MIPS/MipsMacros.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Archs/MIPS/MipsMacros.cpp b/Archs/MIPS/MipsMacros.cpp
index 3392b53..13b6cd6 100644
--- a/Archs/MIPS/MipsMacros.cpp
+++ b/Archs/MIPS/MipsMacros.cpp
@@ -97,13 +97,23 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroAbs(Parser& parser, MipsRegi
 std::unique_ptr<CAssemblerCommand> generateMipsMacroLiFloat(Parser& parser, MipsRegisterData& registers, MipsImmediateData& immediates, int flags)
 {
 	const char* templateLiFloat = R"(
-		li 		r1,float(%imm%)
+		li 		r1,%imm%
 		mtc1	r1,%rs%
 	)";
 
 	std::string macroText = preprocessMacro(templateLiFloat,immediates);
+
+	// insert floats as integers, their text doesn't have the full precision
+	std::string imm = tfm::format("float(%s)",immediates.secondary.expression.toString());
+	if (immediates.secondary.expression.isConstExpression())
+	{
+		ExpressionValue value = immediates.secondary.expression.evaluate();
+		if (value.isFloat())
+			imm = tfm::format("%d",getFloatBits((float)value.floatValue));
+	}
+
 	return createMacro(parser,macroText,flags, {
-			{ "%imm%",		immediates.secondary.expression.toString() },
+			{ "%imm%",		imm },
 			{ "%rs%",		registers.frs.name.string() },
 	});
 }
-- 
2.43.0


From 3325e5fbecb18ede73a9fa5bf4a5682793392d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:14 +0000
Subject: [PATCH 43/89] fix: Thumb push and pop accepted registers they cannot
 encode

The allowed registers were read from signed characters.
---
 Archs/ARM/ArmParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/ArmParser.cpp b/Archs/ARM/ArmParser.cpp
index 87cae19..1aaafca 100644
--- a/Archs/ARM/ArmParser.cpp
+++ b/Archs/ARM/ArmParser.cpp
@@ -727,7 +727,7 @@ bool ArmParser::parseThumbParameters(Parser& parser, const tThumbOpcode& opcode,
 			CHECK(*encoding++ == tempRegister.num);
 			break;
 		case 'R':	// register list
-			value = encoding[0] | (encoding[1] << 8);
+			value = (unsigned char)encoding[0] | ((unsigned char)encoding[1] << 8);
 			CHECK(parseRegisterList(parser,vars.rlist,value));
 			encoding += 2;
 			break;
-- 
2.43.0


From a16b55a79c9516fd273b62749946eb40b10f3b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:37 +0000
Subject: [PATCH 44/89] fix: ARM shift amounts that do not exist are rejected

ror #32 became rrx, amounts were truncated to 32 bits, and rrx took an
amount from a register.
---
 Archs/ARM/ArmParser.cpp       | 3 ++-
 Archs/ARM/CArmInstruction.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/Archs/ARM/ArmParser.cpp b/Archs/ARM/ArmParser.cpp
index 1aaafca..e844a6d 100644
--- a/Archs/ARM/ArmParser.cpp
+++ b/Archs/ARM/ArmParser.cpp
@@ -289,7 +289,8 @@ bool ArmParser::parseShift(Parser& parser, ArmOpcodeVariables& vars, bool immedi
 		vars.Shift.ShiftByRegister = false;
 	} else if (parseRegister(parser,vars.Shift.reg))
 	{
-		if (immediateOnly)
+		// rrx doesn't take an amount from a register
+		if (immediateOnly || vars.Shift.Type == ARM_SHIFT_RRX)
 			return false;
 
 		vars.Shift.ShiftByRegister = true;
diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index ac2d0ce..770202b 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -76,21 +76,21 @@ bool CArmInstruction::Validate(const ValidateState &state)
 
 	if (Vars.Shift.UseShift && !Vars.Shift.ShiftByRegister)
 	{
-		if (!Vars.Shift.ShiftExpression.evaluateInteger(Vars.Shift.ShiftAmount))
+		int64_t num;
+		if (!Vars.Shift.ShiftExpression.evaluateInteger(num))
 		{
 			Logger::queueError(Logger::Error, "Invalid expression");
 			return false;
 		}
 
 		int mode = Vars.Shift.Type;
-		int num = Vars.Shift.ShiftAmount;
 
 		if (num == 0 && mode == ARM_SHIFT_LSR) mode = ARM_SHIFT_LSL;
 		else if (num == 0 && mode == ARM_SHIFT_ASR) mode = ARM_SHIFT_LSL;
 		else if (num == 0 && mode == ARM_SHIFT_ROR) mode = ARM_SHIFT_LSL;
 		else if (num == 32 && mode == ARM_SHIFT_LSR) num = 0;
 		else if (num == 32 && mode == ARM_SHIFT_ASR) num = 0;
-		else if (num == 32 && mode == ARM_SHIFT_LSL)
+		else if (num == 32 && (mode == ARM_SHIFT_LSL || mode == ARM_SHIFT_ROR))
 		{
 			Logger::queueError(Logger::Error, "Shift amount 0x%02X out of range",num);
 			return false;
@@ -112,7 +112,7 @@ bool CArmInstruction::Validate(const ValidateState &state)
 		}
 
 		Vars.Shift.FinalType = mode;
-		Vars.Shift.FinalShiftAmount = num;
+		Vars.Shift.FinalShiftAmount = (int) num;
 		Vars.Shift.UseFinal = true;
 	}
 
-- 
2.43.0


From 3e253e737e418053dad8051e07d129f6d210e131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:37 +0000
Subject: [PATCH 45/89] fix: ARM coprocessor numbers are checked against their
 fields

---
 Archs/ARM/CArmInstruction.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index 770202b..1007ee1 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -118,32 +118,39 @@ bool CArmInstruction::Validate(const ValidateState &state)
 
 	if (Opcode.flags & ARM_COPOP)
 	{
-		if (!Vars.CopData.CpopExpression.evaluateInteger(Vars.CopData.Cpop))
+		int64_t cpop;
+		if (!Vars.CopData.CpopExpression.evaluateInteger(cpop))
 		{
 			Logger::queueError(Logger::Error, "Invalid expression");
 			return false;
 		}
 
-		if (Vars.CopData.Cpop > 15)
+		// register transfers only have 3 bits for it
+		if (cpop < 0 || cpop > (Opcode.type == ARM_TYPE16 ? 7 : 15))
 		{
-			Logger::queueError(Logger::Error, "CP Opc number %02X too big",Vars.CopData.Cpop);
+			Logger::queueError(Logger::Error, "CP Opc number %02X out of range",cpop);
 			return false;
 		}
+
+		Vars.CopData.Cpop = (int) cpop;
 	}
 
 	if (Opcode.flags & ARM_COPINF)
 	{
-		if (!Vars.CopData.CpinfExpression.evaluateInteger(Vars.CopData.Cpinf))
+		int64_t cpinf;
+		if (!Vars.CopData.CpinfExpression.evaluateInteger(cpinf))
 		{
 			Logger::queueError(Logger::Error, "Invalid expression");
 			return false;
 		}
 
-		if (Vars.CopData.Cpinf > 7)
+		if (cpinf < 0 || cpinf > 7)
 		{
-			Logger::queueError(Logger::Error, "CP Inf number %02X too big",Vars.CopData.Cpinf);
+			Logger::queueError(Logger::Error, "CP Inf number %02X out of range",cpinf);
 			return false;
 		}
+
+		Vars.CopData.Cpinf = (int) cpinf;
 	}
 
 	if (Opcode.flags & ARM_DN)
-- 
2.43.0


From 0f736e16c725f60e3390c88caf9c8d823ae1fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:37 +0000
Subject: [PATCH 46/89] fix: psr fields have to be known and at least one

---
 Archs/ARM/ArmParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Archs/ARM/ArmParser.cpp b/Archs/ARM/ArmParser.cpp
index e844a6d..51c1c31 100644
--- a/Archs/ARM/ArmParser.cpp
+++ b/Archs/ARM/ArmParser.cpp
@@ -553,7 +553,8 @@ bool ArmParser::parsePsrTransfer(Parser& parser, ArmOpcodeVariables& vars, bool
 		}
 	}
 
-	return true;
+	// at least one field, and nothing after the fields
+	return vars.PsrData.field != 0 && pos == stringValue.size();
 }
 
 bool ArmParser::parseArmParameters(Parser& parser, const tArmOpcode& opcode, ArmOpcodeVariables& vars)
-- 
2.43.0


From e85a47e554c4b22c359042e7c84d810d53a980fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:37 +0000
Subject: [PATCH 47/89] fix: ARM branches and loads at the limits of their
 range

The farthest backward branch was rejected, and a distance of INT_MIN accepted.
---
 Archs/ARM/CArmInstruction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index 1007ee1..095c069 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -309,7 +309,7 @@ bool CArmInstruction::Validate(const ValidateState &state)
 			}
 
 			Vars.Immediate = (int) (Vars.Immediate-RamPos-8);
-			if (abs(Vars.Immediate) >= 0x2000000)
+			if (Vars.Immediate >= 0x2000000 || Vars.Immediate < -0x2000000)
 			{
 				Logger::queueError(Logger::Error, "Branch target %08X out of range",Vars.OriginalImmediate);
 				return false;
@@ -317,7 +317,8 @@ bool CArmInstruction::Validate(const ValidateState &state)
 		} else if (Opcode.flags & ARM_ABSIMM)	// ldr r0,[I]
 		{
 			Vars.Immediate = (int) (Vars.Immediate-RamPos-8);
-			if (abs(Vars.Immediate) >= (1 << Vars.ImmediateBitLen))
+			int limit = 1 << Vars.ImmediateBitLen;
+			if (Vars.Immediate >= limit || Vars.Immediate <= -limit)
 			{
 				Logger::queueError(Logger::Error, "Load target %08X out of range",Vars.OriginalImmediate);
 				return false;
-- 
2.43.0


From 072889a41384b963878987486427e00103b8fc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:37 +0000
Subject: [PATCH 48/89] fix: negative swi numbers are rejected

---
 Archs/ARM/CArmInstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index 095c069..7b885f2 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -326,7 +326,7 @@ bool CArmInstruction::Validate(const ValidateState &state)
 		} else if (Opcode.flags & ARM_SWI)	// it's an interrupt, may need to shift it
 		{
 			bool needsShift = arch == AARCH_GBA || arch == AARCH_NDS;
-			if (needsShift && Vars.Immediate < 0xFF)
+			if (needsShift && Vars.Immediate >= 0 && Vars.Immediate < 0xFF)
 			{
 				Vars.Immediate <<= 16;
 				Vars.OriginalImmediate = Vars.Immediate;
-- 
2.43.0


From d34f363376aca2d8c7a52077d2d24b8d5b231724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:37 +0000
Subject: [PATCH 49/89] fix: register of strh with an absolute address was not
 initialised

---
 Archs/ARM/CArmInstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index 7b885f2..bcee459 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -614,7 +614,7 @@ void CArmInstruction::Encode() const
 		break;
 	case ARM_TYPE10:	// ARM.10: Halfword, Doubleword, and Signed Data Transfer
 		if (Vars.writeback) encoding |= (1 << 21);
-		encoding |= (Vars.rn.num << 16);
+		if (Opcode.flags & ARM_N) encoding |= (Vars.rn.num << 16);
 		encoding |= (Vars.rd.num << 12);
 		if ((Opcode.flags & ARM_SIGN) && !Vars.SignPlus) encoding &= ~(1 << 23);
 		if ((Opcode.flags & ARM_ABS) && Vars.negative) encoding &= ~(1 << 23);
-- 
2.43.0


From df7d01806a7f177470c175f12a1b7685c146126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:37 +0000
Subject: [PATCH 50/89] fix: ARM and Thumb immediates outside of 32 bits are
 rejected

They were silently truncated.
---
 Archs/ARM/CArmInstruction.cpp   | 7 +++++++
 Archs/ARM/CThumbInstruction.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index bcee459..8a868ef 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -180,6 +180,13 @@ bool CArmInstruction::Validate(const ValidateState &state)
 		switch (value.type)
 		{
 		case ExpressionValueType::Integer:
+			if (!(Opcode.flags & (ARM_SHIFT|ARM_POOL)) &&
+				(value.intValue < INT32_MIN || value.intValue > UINT32_MAX))
+			{
+				Logger::queueError(Logger::Error, "Immediate value %X out of range",value.intValue);
+				return false;
+			}
+
 			Vars.Immediate = (int) value.intValue;
 			break;
 		case ExpressionValueType::Float:
diff --git a/Archs/ARM/CThumbInstruction.cpp b/Archs/ARM/CThumbInstruction.cpp
index 5829555..7c15b61 100644
--- a/Archs/ARM/CThumbInstruction.cpp
+++ b/Archs/ARM/CThumbInstruction.cpp
@@ -56,6 +56,13 @@ bool CThumbInstruction::Validate(const ValidateState &state)
 		switch (value.type)
 		{
 		case ExpressionValueType::Integer:
+			if (!(Opcode.flags & THUMB_POOL) &&
+				(value.intValue < INT32_MIN || value.intValue > UINT32_MAX))
+			{
+				Logger::queueError(Logger::Error, "Immediate value 0x%X out of range",value.intValue);
+				return false;
+			}
+
 			Vars.Immediate = (int) value.intValue;
 			break;
 		case ExpressionValueType::Float:
-- 
2.43.0


From f9f79d1d059aa6585ab3ba864a6f80022d521f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:37 +0000
Subject: [PATCH 51/89] fix: range of Thumb blx is checked for the word it is
 relative to

---
 Archs/ARM/CThumbInstruction.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Archs/ARM/CThumbInstruction.cpp b/Archs/ARM/CThumbInstruction.cpp
index 7c15b61..813f69a 100644
--- a/Archs/ARM/CThumbInstruction.cpp
+++ b/Archs/ARM/CThumbInstruction.cpp
@@ -102,7 +102,11 @@ bool CThumbInstruction::Validate(const ValidateState &state)
 			}
 
 			int num = (int) (Vars.Immediate-RamPos-4);
-			
+
+			// the target is relative to the word that the pc is in
+			if (Opcode.flags & THUMB_EXCHANGE)
+				num += num & 2;
+
 			if (num >= (1 << Vars.ImmediateBitLen) || num < (0-(1 << Vars.ImmediateBitLen)))
 			{
 				Logger::queueError(Logger::Error, "Branch target 0x%X out of range",Vars.OriginalImmediate);
@@ -110,10 +114,6 @@ bool CThumbInstruction::Validate(const ValidateState &state)
 			}
 
 			Vars.Immediate = num >> 1;
-			if (Opcode.flags & THUMB_EXCHANGE)
-			{
-				Vars.Immediate += Vars.Immediate&1;
-			}
 		} else if (Opcode.flags & THUMB_WORD)
 		{
 			if (Vars.Immediate & 3)	// not allowed
-- 
2.43.0


From 2552682aa214df0ad7e925a3a5f91f766e609b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:37 +0000
Subject: [PATCH 52/89] fix: Thumb ldr from [pc] used an uninitialised offset

---
 Archs/ARM/CThumbInstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/CThumbInstruction.cpp b/Archs/ARM/CThumbInstruction.cpp
index 813f69a..3f668f3 100644
--- a/Archs/ARM/CThumbInstruction.cpp
+++ b/Archs/ARM/CThumbInstruction.cpp
@@ -279,7 +279,7 @@ void CThumbInstruction::Encode() const
 			break;
 		case THUMB_TYPE6:	// THUMB.6: load PC-relative
 			encoding |= (Vars.rd.num << 8);
-			encoding |= (Vars.Immediate << 0);
+			if (Opcode.flags & THUMB_IMMEDIATE) encoding |= (Vars.Immediate << 0);
 			break;
 		case THUMB_TYPE7:	// THUMB.7: load/store with register offset
 		case THUMB_TYPE8:	// THUMB.8: load/store sign-extended byte/halfword
-- 
2.43.0


From 86986d4c30edd2c158bd105437e51a0d8925eede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:37 +0000
Subject: [PATCH 53/89] fix: encoding of smlalXY

---
 Archs/ARM/ArmOpcodes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/ArmOpcodes.cpp b/Archs/ARM/ArmOpcodes.cpp
index c3a3bca..b927607 100644
--- a/Archs/ARM/ArmOpcodes.cpp
+++ b/Archs/ARM/ArmOpcodes.cpp
@@ -128,7 +128,7 @@ const tArmOpcode ArmOpcodes[] = {
 	{ "smlaXYC","d1,m1,s1,n1",			0x01000080,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_N|ARM_X|ARM_Y|ARM_ARM9 },	
 	{ "smlawYC","d1,m1,s1,n1",			0x01200080,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_N|ARM_Y|ARM_ARM9 },	
 	{ "smulwYC","d1,m1,s1",				0x012000A0,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_Y|ARM_ARM9 },	
-	{ "smlalXYC","n1,d1,m1,s1",			0x014000A0,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_N|ARM_X|ARM_Y|ARM_ARM9 },	
+	{ "smlalXYC","n1,d1,m1,s1",			0x01400080,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_N|ARM_X|ARM_Y|ARM_ARM9 },	
 	{ "smulXYC","d1,m1,s1",				0x01600080,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_X|ARM_Y|ARM_ARM9 },	
 
 	{ "strC",	"d0,[n0]",				0x05800000,	ARM_TYPE9,	ARM_D|ARM_N },
-- 
2.43.0


From 8e0492a3b9b43cf98f835683b199df0643eb6aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:37 +0000
Subject: [PATCH 54/89] fix: negative offsets of ldrd and strd

---
 Archs/ARM/ArmOpcodes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Archs/ARM/ArmOpcodes.cpp b/Archs/ARM/ArmOpcodes.cpp
index b927607..153a9e9 100644
--- a/Archs/ARM/ArmOpcodes.cpp
+++ b/Archs/ARM/ArmOpcodes.cpp
@@ -202,10 +202,10 @@ const tArmOpcode ArmOpcodes[] = {
 
 	{ "ldrCd",	"d0,[n0,m1]",			0x018000D0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_REGISTER|ARM_M|ARM_ARM9 },
 	{ "ldrCd",	"d0,[n0]",				0x01C000D0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_ARM9 },
-	{ "ldrCd",	"d0,[n0,/#j\x08]",		0x01C000D0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ARM9 },
+	{ "ldrCd",	"d0,[n0,/#j\x08]",		0x01C000D0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS|ARM_ARM9 },
 	{ "strCd",	"d0,[n0,m1]",			0x018000F0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_REGISTER|ARM_M|ARM_ARM9 },
 	{ "strCd",	"d0,[n0]",				0x01C000F0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_ARM9 },
-	{ "strCd",	"d0,[n0,/#j\x08]",		0x01C000F0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ARM9 },
+	{ "strCd",	"d0,[n0,/#j\x08]",		0x01C000F0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS|ARM_ARM9 },
 
 	{ "stmCA",	"/[n1/]W,/{R/}p",		0x08000000,	ARM_TYPE11,	ARM_STORE|ARM_N },
 	{ "ldmCA",	"/[n1/]W,/{R/}p",		0x08100000,	ARM_TYPE11,	ARM_LOAD|ARM_N },
-- 
2.43.0


From 6dda0c3b08e8030ada1317a5f74ca0bb929b049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:37 +0000
Subject: [PATCH 55/89] fix: user mode ARM transfers without an offset are
 post-indexed

---
 Archs/ARM/ArmOpcodes.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Archs/ARM/ArmOpcodes.cpp b/Archs/ARM/ArmOpcodes.cpp
index 153a9e9..34e8033 100644
--- a/Archs/ARM/ArmOpcodes.cpp
+++ b/Archs/ARM/ArmOpcodes.cpp
@@ -152,19 +152,19 @@ const tArmOpcode ArmOpcodes[] = {
 	{ "ldrCb",	"d0,[n0],vm1S1",		0x06D00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "ldrCb",	"d0,[n0],/#j\x0C",		0x04D00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "strC",	"d0,[n0]!",				0x05A00000,	ARM_TYPE9,	ARM_D|ARM_N },
-	{ "strCt",	"d0,[n0]",				0x05A00000,	ARM_TYPE9,	ARM_D|ARM_N },
+	{ "strCt",	"d0,[n0]",				0x04A00000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "strCt",	"d0,[n0],vm1S1",		0x06A00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "strCt",	"d0,[n0],/#j\x0C",		0x04A00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "ldrC",	"d0,[n0]!",				0x05B00000,	ARM_TYPE9,	ARM_D|ARM_N },
-	{ "ldrCt",	"d0,[n0]",				0x05B00000,	ARM_TYPE9,	ARM_D|ARM_N },
+	{ "ldrCt",	"d0,[n0]",				0x04B00000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "ldrCt",	"d0,[n0],vm1S1",		0x06B00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "ldrCt",	"d0,[n0],/#j\x0C",		0x04B00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "strCb",	"d0,[n0]!",				0x05E00000,	ARM_TYPE9,	ARM_D|ARM_N },
-	{ "strCbt",	"d0,[n0]",				0x05E00000,	ARM_TYPE9,	ARM_D|ARM_N },
+	{ "strCbt",	"d0,[n0]",				0x04E00000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "strCbt",	"d0,[n0],vm1S1",		0x06E00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "strCbt",	"d0,[n0],/#j\x0C",		0x04E00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "ldrCb",	"d0,[n0]!",				0x05F00000,	ARM_TYPE9,	ARM_D|ARM_N },
-	{ "ldrCbt",	"d0,[n0]",				0x05F00000,	ARM_TYPE9,	ARM_D|ARM_N },
+	{ "ldrCbt",	"d0,[n0]",				0x04F00000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "ldrCbt",	"d0,[n0],vm1S1",		0x06F00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "ldrCbt",	"d0,[n0],/#j\x0C",		0x04F00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "ldrC",	"d0,[/#j\x0C]",			0x059F0000,	ARM_TYPE9,	ARM_D|ARM_LOAD|ARM_ABSIMM|ARM_IMMEDIATE },
-- 
2.43.0


From 0dddfaeea43afbb256425df482065801ba9bce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:37 +0000
Subject: [PATCH 56/89] fix: post-indexed str with a signed register offset

---
 Archs/ARM/ArmOpcodes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/ArmOpcodes.cpp b/Archs/ARM/ArmOpcodes.cpp
index 34e8033..d5d3f31 100644
--- a/Archs/ARM/ArmOpcodes.cpp
+++ b/Archs/ARM/ArmOpcodes.cpp
@@ -133,8 +133,8 @@ const tArmOpcode ArmOpcodes[] = {
 
 	{ "strC",	"d0,[n0]",				0x05800000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "strC",	"d0,[n0,vm1S1]W",		0x07800000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_M|ARM_REGISTER|ARM_SIGN },
-	{ "strC",	"d0,[n0],/#j\x0C",		0x04800000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "strC",	"d0,[n0],vm1S1",		0x06800000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
+	{ "strC",	"d0,[n0],/#j\x0C",		0x04800000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "strC",	"d0,[n0,/#j\x0C]W",		0x05800000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "ldrC",	"d0,[n0]",				0x05900000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "ldrC",	"d0,[n0,vm1S1]W",		0x07900000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_M|ARM_REGISTER|ARM_SIGN },
-- 
2.43.0


From dccc7143d9993ec5b7e88fd17933a0f5d032a770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:51 +0000
Subject: [PATCH 57/89] fix: analyzing a macro has no effect on anything else

The first call of a macro parses its body once more to find its labels. The
settings, sections, functions and included files of that parse leaked.
---
 Parser/DirectivesParser.cpp    | 39 +++++-----------------------------
 Parser/ParseSettingsRestorer.h | 38 +++++++++++++++++++++++++++++++++
 Parser/Parser.cpp              | 14 ++++++++----
 Parser/Parser.h                |  1 +
 4 files changed, 54 insertions(+), 38 deletions(-)
 create mode 100644 Parser/ParseSettingsRestorer.h

diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index 4f121fa..e2472d8 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -14,6 +14,7 @@
 #include "Core/Expression.h"
 #include "Core/Misc.h"
 #include "Parser/ExpressionParser.h"
+#include "Parser/ParseSettingsRestorer.h"
 #include "Parser/Parser.h"
 #include "Parser/Tokenizer.h"
 #include "Util/FileSystem.h"
@@ -180,8 +181,8 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveObjImport(Parser& parser, int f
 	if (!parser.parseExpressionList(list,1,2))
 		return nullptr;
 
-	// don't look for the file if it's inside a false block
-	if (!parser.isInsideTrueBlock())
+	// don't look for the file if it's inside a false block or a macro that is merely analyzed
+	if (!parser.isInsideTrueBlock() || parser.isAnalyzingMacro())
 		return std::make_unique<DummyCommand>();
 
 	StringLiteral fileName;
@@ -200,36 +201,6 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveObjImport(Parser& parser, int f
 	return std::make_unique<DirectiveObjImport>(fileName.path());
 }
 
-// Restores all settings that are changed while parsing. Used for blocks that are known to be
-// false, as their directives must not have any effect.
-class ParseSettingsRestorer
-{
-public:
-	~ParseSettingsRestorer()
-	{
-		Mips.SetVersion(mipsVersion);
-		Mips.SetFixLoadDelay(mipsFixLoadDelay);
-		Arm.setVersion(armVersion);
-		Arm.SetThumbMode(armThumbMode);
-		SuperH.setVersion(shVersion);
-		if (&Architecture::current() != &architecture)
-			Architecture::setCurrent(architecture);
-		Global.nocash = nocash;
-		Global.relativeInclude = relativeInclude;
-		Logger::setErrorOnWarning(errorOnWarning);
-	}
-private:
-	Architecture& architecture = Architecture::current();
-	MipsArchType mipsVersion = Mips.GetVersion();
-	bool mipsFixLoadDelay = Mips.GetFixLoadDelay();
-	ArmArchType armVersion = Arm.getVersion();
-	bool armThumbMode = Arm.GetThumbMode();
-	ShArchType shVersion = SuperH.getVersion();
-	bool nocash = Global.nocash;
-	bool relativeInclude = Global.relativeInclude;
-	bool errorOnWarning = Logger::getErrorOnWarning();
-};
-
 std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int flags)
 {
 	ConditionType type;
@@ -794,8 +765,8 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveInclude(Parser& parser, int fla
 		encoding = getEncodingFromString(encodingName.string());
 	}
 
-	// don't include the file if it's inside a false block
-	if (!parser.isInsideTrueBlock())
+	// don't include the file if it's inside a false block or a macro that is merely analyzed
+	if (!parser.isInsideTrueBlock() || parser.isAnalyzingMacro())
 		return std::make_unique<DummyCommand>();
 
 	if (!fs::exists(fileName))
diff --git a/Parser/ParseSettingsRestorer.h b/Parser/ParseSettingsRestorer.h
new file mode 100644
index 0000000..17b0af9
--- /dev/null
+++ b/Parser/ParseSettingsRestorer.h
@@ -0,0 +1,38 @@
+#pragma once
+
+#include "Archs/ARM/Arm.h"
+#include "Archs/Architecture.h"
+#include "Archs/MIPS/Mips.h"
+#include "Archs/SuperH/SuperH.h"
+#include "Core/Common.h"
+#include "Core/Misc.h"
+
+// Restores all settings that are changed while parsing. Used for blocks that are known to be
+// false and for macros that are merely analyzed, as their directives must not have any effect.
+class ParseSettingsRestorer
+{
+public:
+	~ParseSettingsRestorer()
+	{
+		Mips.SetVersion(mipsVersion);
+		Mips.SetFixLoadDelay(mipsFixLoadDelay);
+		Arm.setVersion(armVersion);
+		Arm.SetThumbMode(armThumbMode);
+		SuperH.setVersion(shVersion);
+		if (&Architecture::current() != &architecture)
+			Architecture::setCurrent(architecture);
+		Global.nocash = nocash;
+		Global.relativeInclude = relativeInclude;
+		Logger::setErrorOnWarning(errorOnWarning);
+	}
+private:
+	Architecture& architecture = Architecture::current();
+	MipsArchType mipsVersion = Mips.GetVersion();
+	bool mipsFixLoadDelay = Mips.GetFixLoadDelay();
+	ArmArchType armVersion = Arm.getVersion();
+	bool armThumbMode = Arm.GetThumbMode();
+	ShArchType shVersion = SuperH.getVersion();
+	bool nocash = Global.nocash;
+	bool relativeInclude = Global.relativeInclude;
+	bool errorOnWarning = Logger::getErrorOnWarning();
+};
diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 9e92ff2..ee3daa7 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -8,6 +8,7 @@
 #include "Core/Misc.h"
 #include "Parser/DirectivesParser.h"
 #include "Parser/ExpressionParser.h"
+#include "Parser/ParseSettingsRestorer.h"
 #include "Util/Util.h"
 
 inline bool isPartOfList(const Identifier& value, const std::initializer_list<const char*>& terminators)
@@ -474,8 +475,8 @@ bool Parser::checkExpFuncDefinition()
 		return false;
 	}
 
-	// if we are in a known false block, don't define the function
-	if (!isInsideTrueBlock())
+	// if we are in a known false block or a macro that is merely analyzed, don't define the function
+	if (!isInsideTrueBlock() || initializingMacro)
 		return true;
 
 	if(nextToken().type != TokenType::Separator)
@@ -745,7 +746,11 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 	if (macro.counter == 0)
 	{
 		initializingMacro = true;
-		
+
+		// this must not affect anything else
+		ParseSettingsRestorer restorer;
+		int section = Global.Section;
+
 		// parse the short lived next command
 		macroTokenizer.init(macro.content);
 		Logger::suppressErrors();
@@ -754,7 +759,8 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 
 		macro.labels = macroLabels;
 		macroLabels.clear();
-		
+
+		Global.Section = section;
 		initializingMacro = false;
 	}
 
diff --git a/Parser/Parser.h b/Parser/Parser.h
index f9cc573..39076ed 100644
--- a/Parser/Parser.h
+++ b/Parser/Parser.h
@@ -67,6 +67,7 @@ public:
 	void popConditionalResult() { conditionStack.pop_back(); };
 	bool skipLabel(const Identifier& name);
 	bool isInsideTrueBlock() { return conditionStack.back().inTrueBlock; }
+	bool isAnalyzingMacro() { return initializingMacro; }
 	bool isInsideUnknownBlock() { return conditionStack.back().inUnknownBlock; }
 
 	void printError(const Token &token, const std::string &text);
-- 
2.43.0


From b27310b7ee74d4dbbc01d91164f42d5aed34e8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:51 +0000
Subject: [PATCH 58/89] fix: macro calls in known false blocks inside undecided
 blocks were expanded

---
 Parser/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index ee3daa7..80bf164 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -732,7 +732,7 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 	}
 
 	// skip macro instantiation in known false blocks
-	if (!isInsideUnknownBlock() && !isInsideTrueBlock())
+	if (!isInsideTrueBlock())
 		return std::make_unique<DummyCommand>();
 
 	// a macro is fully parsed once when it's loaded
-- 
2.43.0


From 6235224a96aa6e2beb1b360676f77ca019121144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:51 +0000
Subject: [PATCH 59/89] fix: static equs at the start and right behind an
 included file

They were defined and looked up in the file of the last command.
---
 Parser/Parser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 80bf164..f09da38 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -298,9 +298,17 @@ std::unique_ptr<CAssemblerCommand> Parser::parse(Tokenizer* tokenizer, bool virt
 
 	entries.push_back(entry);
 
+	// static equs belong to the file that is being read
+	const int previousFileNum = Global.FileInfo.FileNum;
+	if (entry.fileNum != -1)
+		Global.FileInfo.FileNum = entry.fileNum;
+
 	std::unique_ptr<CAssemblerCommand> sequence = parseCommandSequence();
 	entries.pop_back();
 
+	if (!entries.empty())
+		Global.FileInfo.FileNum = previousFileNum;
+
 	return sequence;
 }
 
-- 
2.43.0


From abfcdb9f006840d71123b4e6862aefffcf77eaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:51 +0000
Subject: [PATCH 60/89] fix: equ values inside of macros refer to the arguments
 of the call

---
 Parser/Parser.cpp    | 4 ++++
 Parser/Tokenizer.cpp | 1 +
 Parser/Tokenizer.h   | 1 +
 3 files changed, 6 insertions(+)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index f09da38..d6038b8 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -321,6 +321,10 @@ void Parser::addEquation(const Token& startToken, const Identifier& name, const
 	FileTokenizer tok;
 	tok.init(&f);
 
+	// inside of macros, the value refers to the arguments and labels of this instance
+	if (!entries.empty())
+		tok.copyReplacements(*getTokenizer());
+
 	TokenizerPosition start = tok.getPosition();
 	while (!tok.atEnd() && tok.peekToken().type != TokenType::Separator)
 	{
diff --git a/Parser/Tokenizer.cpp b/Parser/Tokenizer.cpp
index 1780cb2..ecd8b09 100644
--- a/Parser/Tokenizer.cpp
+++ b/Parser/Tokenizer.cpp
@@ -117,6 +117,7 @@ bool Tokenizer::processElement(TokenList::iterator& it)
 					(*insertIt) = token;
 					insertIt->line = originalToken.line;
 					insertIt->column = originalToken.column;
+					insertIt->replacement = originalToken.replacement;
 					std::advance(insertIt, 1);
 				}
 
diff --git a/Parser/Tokenizer.h b/Parser/Tokenizer.h
index 4320941..c3109be 100644
--- a/Parser/Tokenizer.h
+++ b/Parser/Tokenizer.h
@@ -141,6 +141,7 @@ public:
 	void setPosition(TokenizerPosition pos) { position = pos; }
 	void skipLookahead();
 	std::vector<Token> getTokens(TokenizerPosition start, TokenizerPosition end) const;
+	void copyReplacements(const Tokenizer& other) { replacements = other.replacements; }
 	void registerReplacement(const Identifier& identifier, std::vector<Token>& tokens);
 	void registerReplacement(const Identifier& identifier, const std::string& newValue);
 	void registerReplacementString(const Identifier& identifier, const StringLiteral& newValue);
-- 
2.43.0


From 24736d19676404e76745235a517394d6f3922090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:52 +0000
Subject: [PATCH 61/89] fix: equ values with strings, separators and block
 comments

The value ended at a comment character inside of a string or character constant
and swallowed the following statements. An equ without value took the next line.
---
 Parser/Tokenizer.cpp | 68 +++++++++++++++++++++++++++++++++++++++++---
 Parser/Tokenizer.h   |  1 +
 2 files changed, 65 insertions(+), 4 deletions(-)

diff --git a/Parser/Tokenizer.cpp b/Parser/Tokenizer.cpp
index ecd8b09..b31a5f3 100644
--- a/Parser/Tokenizer.cpp
+++ b/Parser/Tokenizer.cpp
@@ -545,6 +545,68 @@ bool FileTokenizer::convertFloat(size_t start, size_t end, double& result)
 	return str.c_str() + str.size() == end_ptr;
 }
 
+void FileTokenizer::loadEquValue()
+{
+	size_t startLine = lineNumber;
+	size_t startColumn = linePos+1;
+	std::string value;
+
+	// the value consists of the rest of the statement
+	while (linePos < currentLine.size() && !isComment(currentLine,linePos) && currentLine.compare(linePos,2,"::") != 0)
+	{
+		if (isBlockComment(currentLine,linePos))
+		{
+			skipWhitespace();
+			value += ' ';
+			continue;
+		}
+
+		if (isContinuation(currentLine,linePos) && !input->atEnd())
+		{
+			size_t continuationPos = linePos++;
+			skipWhitespace();
+
+			if (linePos >= currentLine.size())
+			{
+				currentLine = input->readLine();
+				linePos = 0;
+				lineNumber++;
+				value += ' ';
+				continue;
+			}
+
+			linePos = continuationPos;
+		}
+
+		// character and string constants may contain anything
+		size_t end = linePos+1;
+		if (currentLine[linePos] == '\'' && end < currentLine.size())
+		{
+			size_t decodePos = end;
+			decodeUtf8Character(currentLine, decodePos);
+			if (decodePos < currentLine.size() && currentLine[decodePos] == '\'')
+				end = decodePos+1;
+		} else if (currentLine[linePos] == '"')
+		{
+			while (end < currentLine.size() && currentLine[end] != '"')
+			{
+				bool escape = currentLine[end] == '\\' && end+1 < currentLine.size()
+					&& (currentLine[end+1] == '"' || currentLine[end+1] == '\\');
+				end += escape ? 2 : 1;
+			}
+			end = std::min(end+1, currentLine.size());
+		}
+
+		value.append(currentLine, linePos, end-linePos);
+		linePos = end;
+	}
+
+	token.type = TokenType::EquValue;
+	token.line = startLine;
+	token.column = startColumn;
+	token.setValue(value, value);
+}
+
 Token FileTokenizer::loadToken()
 {
 	if (isInputAtEnd())
@@ -557,10 +619,7 @@ Token FileTokenizer::loadToken()
 
 	if (equActive)
 	{
-		while (pos < currentLine.size() && !isComment(currentLine,pos))
-			pos++;
-
-		createTokenCurrentString(TokenType::EquValue,pos-linePos);
+		loadEquValue();
 
 		equActive = false;
 		return std::move(token);
@@ -784,6 +843,7 @@ bool FileTokenizer::init(TextFile* input)
 				{
 					createToken(TokenType::Separator,0);
 					addToken(token);
+					equActive = false;
 				}
 
 				if (input->atEnd())
diff --git a/Parser/Tokenizer.h b/Parser/Tokenizer.h
index c3109be..14cf4f0 100644
--- a/Parser/Tokenizer.h
+++ b/Parser/Tokenizer.h
@@ -188,6 +188,7 @@ protected:
 	void createTokenCurrentString(TokenType type, size_t length);
 
 	bool convertInteger(size_t start, size_t end, int64_t& result);
+	void loadEquValue();
 	bool convertFloat(size_t start, size_t end, double& result);
 	bool parseOperator();
 
-- 
2.43.0


From 33f64199672d8cd302af005ccb5a706ab4314ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:52 +0000
Subject: [PATCH 62/89] fix: unterminated block comments crashed the assembler

---
 Parser/Tokenizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Parser/Tokenizer.cpp b/Parser/Tokenizer.cpp
index b31a5f3..b2e8077 100644
--- a/Parser/Tokenizer.cpp
+++ b/Parser/Tokenizer.cpp
@@ -331,7 +331,8 @@ void FileTokenizer::skipWhitespace()
 				{
 					if (isInputAtEnd())
 					{
-						createToken(TokenType::Invalid,linePos, "Unexpected end of file in block comment");
+						linePos = currentLine.size();
+						createToken(TokenType::Invalid,0, "Unexpected end of file in block comment");
 						addToken(token);
 						return;
 					}
-- 
2.43.0


From 502dd0cb2ed359dfb01cffea371c7b7223cfde34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:52 +0000
Subject: [PATCH 63/89] fix: character constants at the end of a line were read
 past the end

---
 Parser/Tokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parser/Tokenizer.cpp b/Parser/Tokenizer.cpp
index b2e8077..73ad720 100644
--- a/Parser/Tokenizer.cpp
+++ b/Parser/Tokenizer.cpp
@@ -29,7 +29,7 @@ namespace
 			value &= 0x0F;
 		}
 
-		for (size_t i = 0; i < extraBytes; i++)
+		for (size_t i = 0; i < extraBytes && index < source.size(); i++)
 		{
 			int b = source[index++];
 			value = (value << 6) | (b & 0x3F);
@@ -632,7 +632,7 @@ Token FileTokenizer::loadToken()
 	char first = currentLine[pos];
 
 	// character constants
-	if (first == '\'')
+	if (first == '\'' && pos+1 < currentLine.size())
 	{
 		size_t decodePos = pos+1;
 
-- 
2.43.0


From c2bf808c3af92e9955e80101128c509459b890d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:52 +0000
Subject: [PATCH 64/89] fix: malformed operands were taken for unary operators

Any token in front of an operand was skipped.
---
 Parser/ExpressionParser.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/Parser/ExpressionParser.cpp b/Parser/ExpressionParser.cpp
index 8382339..72de699 100644
--- a/Parser/ExpressionParser.cpp
+++ b/Parser/ExpressionParser.cpp
@@ -79,12 +79,21 @@ static std::unique_ptr<ExpressionInternal> postfixExpression(Tokenizer& tokenize
 
 static std::unique_ptr<ExpressionInternal> unaryExpression(Tokenizer& tokenizer)
 {
-	std::unique_ptr<ExpressionInternal> exp = postfixExpression(tokenizer);
-	if (exp != nullptr)
-		return exp;
+	const TokenType opType = tokenizer.peekToken().type;
+	switch (opType)
+	{
+	case TokenType::Plus:
+	case TokenType::Minus:
+	case TokenType::Tilde:
+	case TokenType::Exclamation:
+	case TokenType::Degree:
+		tokenizer.eatToken();
+		break;
+	default:
+		return postfixExpression(tokenizer);
+	}
 
-	const TokenType opType = tokenizer.nextToken().type;
-	exp = postfixExpression(tokenizer);
+	std::unique_ptr<ExpressionInternal> exp = postfixExpression(tokenizer);
 	if (exp == nullptr)
 		return nullptr;
 
-- 
2.43.0


From cac84ac4e33507df5ffddc01bfaccd1ac9dd41c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:53 +0000
Subject: [PATCH 65/89] fix: only half of a file was read with the ASCII
 encoding

---
 Util/FileClasses.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index 7c2c940..84f3475 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -854,7 +854,6 @@ char32_t TextFile::readCharacter()
 		break;
 	case ASCII:
 		value = bufGetChar();
-		contentPos++;
 		break;
 
 	case GUESS:
-- 
2.43.0


From b143ff0e7f4a9a2e20dee297dadb6e36a094fcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:53 +0000
Subject: [PATCH 66/89] fix: text after a lone carriage return was lost or read
 twice

Seeking did not take the buffer into account.
---
 Util/FileClasses.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index 84f3475..f480261 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -782,10 +782,16 @@ long TextFile::tell()
 
 void TextFile::seek(long pos)
 {
-	if (fromMemory)
-		contentPos = pos;
-	else
+	contentPos = pos;
+
+	if (!fromMemory)
+	{
+		// discard everything that was read ahead
+		stream.clear();
 		stream.seekg(pos);
+		buf.clear();
+		bufPos = 0;
+	}
 }
 
 void TextFile::bufFillRead()
-- 
2.43.0


From d192e6ab92eda7686954b5cb0c5470b733e477d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:53 +0000
Subject: [PATCH 67/89] fix: half-width katakana in Shift-JIS files swallowed
 the next byte

---
 Util/FileClasses.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index f480261..0e04720 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -849,7 +849,8 @@ char32_t TextFile::readCharacter()
 	case SJIS:
 		{
 			unsigned short sjis = bufGetChar();
-			if (sjis >= 0x80)
+			// half-width katakana are single bytes
+			if (sjis >= 0x80 && !(sjis >= 0xA1 && sjis <= 0xDF))
 				sjis = (sjis << 8) | bufGetChar();
 
 			if (auto unicode = sjisToUnicode(sjis))
-- 
2.43.0


From 5eafbee41af7cd1b4a5b2b66bf94b2b021784448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:08 +0000
Subject: [PATCH 68/89] fix: labels of different macros could get the same name

Label b_c of a macro a and label c of a macro a_b were both called a_b_c_00000000,
as every macro counted its own instances.
---
 Parser/Parser.cpp | 10 ++++++----
 Parser/Parser.h   |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index d6038b8..5020f5f 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -779,20 +779,22 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 	// register labels and replacements
 	for (const Identifier& label: macro.labels)
 	{
-		// make sure the name is unique. tokens of arguments are not affected by this
+		// make sure the name is unique, the number tells the instances of all macros apart.
+		// tokens of arguments are not affected by this
 		std::string fullName;
 		if (Global.symbolTable.isLocalSymbol(Identifier(label)))
-			fullName = tfm::format("@@%s_%s_%08X",macro.name,label.string().substr(2),macro.counter);
+			fullName = tfm::format("@@%s_%s_%08X",macro.name,label.string().substr(2),macroInstances);
 		else if (Global.symbolTable.isStaticSymbol(Identifier(label)))
-			fullName = tfm::format("@%s_%s_%08X",macro.name,label.string().substr(1),macro.counter);
+			fullName = tfm::format("@%s_%s_%08X",macro.name,label.string().substr(1),macroInstances);
 		else
-			fullName = tfm::format("%s_%s_%08X",macro.name,label,macro.counter);
+			fullName = tfm::format("%s_%s_%08X",macro.name,label,macroInstances);
 
 		macroTokenizer.registerReplacement(label,fullName);
 	}
 
 	macroTokenizer.init(macro.content);
 	macro.counter++;
+	macroInstances++;
 
 	return parse(&macroTokenizer,true);
 
diff --git a/Parser/Parser.h b/Parser/Parser.h
index 39076ed..12c3336 100644
--- a/Parser/Parser.h
+++ b/Parser/Parser.h
@@ -106,6 +106,7 @@ protected:
 	std::map<Identifier, ParserMacro> macros;
 	std::set<Identifier> macroLabels;
 	bool initializingMacro;
+	size_t macroInstances = 0;
 	bool error;
 	size_t errorLine;
 
-- 
2.43.0


From 8bd5625109098a638b34ba75d0938f761d8aaaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:55 +0000
Subject: [PATCH 69/89] fix: errors in the arguments named a line of the
 previous run

---
 Main/CommandLineInterface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Main/CommandLineInterface.cpp b/Main/CommandLineInterface.cpp
index 3734619..cedfe53 100644
--- a/Main/CommandLineInterface.cpp
+++ b/Main/CommandLineInterface.cpp
@@ -208,6 +208,10 @@ static bool parseArguments(const std::vector<std::string>& arguments, ArmipsArgu
 
 int runFromCommandLine(const std::vector<std::string>& arguments, ArmipsArguments settings)
 {
+	// errors in the arguments have nothing to do with what was assembled before
+	Logger::clear();
+	Global.fileList.clear();
+
 	if (!parseArguments(arguments, settings))
 	{
 		if (arguments.size() > 1 && !settings.silent)
-- 
2.43.0


From 16434f7ee2b2d196bb1e10e049c780c159afbac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:55 +0000
Subject: [PATCH 70/89] fix: errors found while writing named the wrong line

---
 Commands/CommandSequence.cpp | 1 +
 Core/Assembler.cpp           | 4 ++++
 Core/Common.cpp              | 1 +
 Core/Common.h                | 7 ++++---
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/Commands/CommandSequence.cpp b/Commands/CommandSequence.cpp
index bc5b0d2..23b8399 100644
--- a/Commands/CommandSequence.cpp
+++ b/Commands/CommandSequence.cpp
@@ -24,6 +24,7 @@ void CommandSequence::Encode() const
 {
 	for (const std::unique_ptr<CAssemblerCommand>& cmd: commands)
 	{
+		cmd->applyFileInfo();
 		cmd->Encode();
 	}
 }
diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index e381f4f..72a9341 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -86,8 +86,11 @@ bool encodeAssembly(std::unique_ptr<CAssemblerCommand> content, SymbolData& symD
 	if (Global.memoryMode)
 		g_fileManager->openFile(Global.memoryFile,false);
 
+	const tFileInfo fileInfo = Global.FileInfo;
+
 	auto writeTempData = [&]()
 	{
+		Global.FileInfo = fileInfo;
 		tempData.start();
 		if (tempData.isOpen())
 			content->writeTempData(tempData);
@@ -96,6 +99,7 @@ bool encodeAssembly(std::unique_ptr<CAssemblerCommand> content, SymbolData& symD
 
 	auto writeSymData = [&]()
 	{
+		Global.FileInfo = fileInfo;
 		content->writeSymData(symData);
 		symData.write();
 	};
diff --git a/Core/Common.cpp b/Core/Common.cpp
index 05efb9b..f1ec7ab 100644
--- a/Core/Common.cpp
+++ b/Core/Common.cpp
@@ -11,6 +11,7 @@ FileManager fileManager;
 FileManager* g_fileManager = &fileManager;
 
 tGlobal Global;
+thread_local tFileInfo tGlobal::FileInfo;
 
 void FileList::add(const fs::path &path)
 {
diff --git a/Core/Common.h b/Core/Common.h
index 4913eb8..8d54bae 100644
--- a/Core/Common.h
+++ b/Core/Common.h
@@ -50,9 +50,10 @@ typedef struct {
 	int TotalLineCount;
 } tFileInfo;
 
-typedef struct {
+struct tGlobal {
 	FileList fileList;
-	tFileInfo FileInfo;
+	// the threads that write the outputs are at different places of the program
+	static thread_local tFileInfo FileInfo;
 	SymbolTable symbolTable;
 	EncodingTable Table;
 	int Section;
@@ -61,7 +62,7 @@ typedef struct {
 	bool memoryMode;
 	std::shared_ptr<AssemblerFile> memoryFile;
 	bool multiThreading;
-} tGlobal;
+};
 
 extern tGlobal Global;
 
-- 
2.43.0


From 50d4fdeb0f4bac6cb2e11139a8ec4aa6820a3cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:55 +0000
Subject: [PATCH 71/89] fix: outputs that fail at the same time raced for the
 list of errors

---
 Core/Misc.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Core/Misc.cpp b/Core/Misc.cpp
index 4392316..5e38eca 100644
--- a/Core/Misc.cpp
+++ b/Core/Misc.cpp
@@ -6,6 +6,7 @@
 #include "Util/Util.h"
 
 #include <iostream>
+#include <mutex>
 
 std::vector<Logger::QueueEntry> Logger::queue;
 std::vector<std::string> Logger::errors;
@@ -91,6 +92,10 @@ void Logger::printError(ErrorType type, const std::string_view text)
 	if (suppressLevel)
 		return;
 
+	// the outputs are written at the same time, and each of them can fail
+	static std::mutex mutex;
+	std::lock_guard<std::mutex> lock(mutex);
+
 	std::string errorText = formatError(type,text.data());
 	errors.push_back(errorText);
 
-- 
2.43.0


From 3ce81542b82ea5dce59dfe398629ae2af81d2ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 72/89] fix: importing objects with an alignment of 0 crashed

---
 Core/ELF/ElfRelocator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Core/ELF/ElfRelocator.cpp b/Core/ELF/ElfRelocator.cpp
index 67fc70e..e636423 100644
--- a/Core/ELF/ElfRelocator.cpp
+++ b/Core/ELF/ElfRelocator.cpp
@@ -301,7 +301,8 @@ bool ElfRelocator::relocateFile(ElfRelocatorFile& file, int64_t& relocationAddre
 		size_t index = entry.index;
 		int size = section->getSize();
 
-		while (relocationAddress % section->getAlignment())
+		// 0 is the same as no alignment
+		while (section->getAlignment() > 1 && relocationAddress % section->getAlignment())
 			relocationAddress++;
 
 		if (entry.label != nullptr)
@@ -445,7 +446,7 @@ bool ElfRelocator::relocateFile(ElfRelocatorFile& file, int64_t& relocationAddre
 			{
 				int64_t start = relocationAddress;
 
-				while (relocationAddress % sym.relativeAddress)
+				while (sym.relativeAddress > 1 && relocationAddress % sym.relativeAddress)
 					relocationAddress++;
 
 				sym.relocatedAddress = relocationAddress;
-- 
2.43.0


From 8051ac77a0fdef1e10ef0c7563e59b66d64fb78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 73/89] fix: references to common symbols used their alignment
 as address

---
 Core/ELF/ElfRelocator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Core/ELF/ElfRelocator.cpp b/Core/ELF/ElfRelocator.cpp
index e636423..ed91ff3 100644
--- a/Core/ELF/ElfRelocator.cpp
+++ b/Core/ELF/ElfRelocator.cpp
@@ -206,6 +206,7 @@ bool ElfRelocator::init(const fs::path& inputName)
 				symEntry.type = ELF32_ST_TYPE(symbol.st_info);
 				symEntry.name = elf->getStrTableString(symbol.st_name);
 				symEntry.relativeAddress = symbol.st_value;
+				symEntry.relocatedAddress = -1;
 				symEntry.section = symbol.st_shndx;
 				symEntry.size = symbol.st_size;
 				symEntry.label = nullptr;
@@ -365,8 +366,8 @@ bool ElfRelocator::relocateFile(ElfRelocatorFile& file, int64_t& relocationAddre
 				relData.addend = rela.r_addend;
 				relocator->setSymbolAddress(relData,sym.st_value,sym.st_info & 0xF);
 
-				// externs?
-				if (sym.st_shndx == 0)
+				// externs, or symbols that are allocated behind the sections?
+				if (sym.st_shndx == 0 || sym.st_shndx == SHN_COMMON)
 				{
 					if (sym.st_name == 0)
 					{
-- 
2.43.0


From e995d042d060f4965a149a9736c85cfbe3e9d1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 74/89] fix: imported objects decided by uninitialised memory
 if a symbol is Thumb code

---
 Core/ELF/ElfFile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Core/ELF/ElfFile.h b/Core/ELF/ElfFile.h
index 5d37e93..20bf516 100644
--- a/Core/ELF/ElfFile.h
+++ b/Core/ELF/ElfFile.h
@@ -119,5 +119,5 @@ struct RelocationData
 
 	int64_t symbolAddress;
 	int targetSymbolType;
-	int targetSymbolInfo;
+	int targetSymbolInfo = 0;
 };
-- 
2.43.0


From ab2c3780d940948bff6b605d4d8b20f31a79b923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 75/89] fix: calls between ARM and Thumb code in imported
 objects missed their target

---
 Archs/ARM/ArmElfRelocator.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/Archs/ARM/ArmElfRelocator.cpp b/Archs/ARM/ArmElfRelocator.cpp
index 7649b91..39b414c 100644
--- a/Archs/ARM/ArmElfRelocator.cpp
+++ b/Archs/ARM/ArmElfRelocator.cpp
@@ -64,6 +64,8 @@ bool ArmElfRelocator::relocateOpcode(int type, const RelocationData& data, std::
 					errors.emplace_back("Branch target must be halfword aligned");
 					return false;
 				}
+
+				second = 0xF800;
 			} else {
 				if (arm9 == false)
 				{
@@ -77,7 +79,9 @@ bool ArmElfRelocator::relocateOpcode(int type, const RelocationData& data, std::
 					return false;
 				}
 				
+				// blx is relative to the word aligned address
 				second = 0xE800;
+				value = (value + 2) & ~3;
 			}
 
 			if (abs(value) >= 0x400000)
@@ -100,6 +104,12 @@ bool ArmElfRelocator::relocateOpcode(int type, const RelocationData& data, std::
 			opcode &= ~0xFFFFFF;
 
 			int a = signExtend(opField,26);
+
+			// blx can also be the result of the compiler
+			bool isBlx = condField == 0xF;
+			if (isBlx && (opcode & (1 << 24)))
+				a += 2;
+
 			int value = (s+a) - p;
 
 			if (t == 1)
@@ -122,7 +132,7 @@ bool ArmElfRelocator::relocateOpcode(int type, const RelocationData& data, std::
 					return false;
 				}
 
-				if (condField != 0xE)
+				if (condField != 0xE && !isBlx)
 				{
 					errors.emplace_back("Cannot convert conditional bl into blx");
 					return false;
@@ -137,6 +147,9 @@ bool ArmElfRelocator::relocateOpcode(int type, const RelocationData& data, std::
 					errors.emplace_back("Branch target must be word aligned");
 					return false;
 				}
+
+				if (isBlx)
+					opcode = 0xEB000000;
 			}
 			
 			if (abs(value) >= 0x2000000)
-- 
2.43.0


From 5e6f2846a68f8adcd63013af81cdc4c562ff76ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 76/89] fix: calls in imported objects reaching the lowest
 address in range were rejected

---
 Archs/ARM/ArmElfRelocator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Archs/ARM/ArmElfRelocator.cpp b/Archs/ARM/ArmElfRelocator.cpp
index 39b414c..f6c7ec1 100644
--- a/Archs/ARM/ArmElfRelocator.cpp
+++ b/Archs/ARM/ArmElfRelocator.cpp
@@ -84,7 +84,7 @@ bool ArmElfRelocator::relocateOpcode(int type, const RelocationData& data, std::
 				value = (value + 2) & ~3;
 			}
 
-			if (abs(value) >= 0x400000)
+			if (value < -0x400000 || value >= 0x400000)
 			{
 				errors.emplace_back(tfm::format("Branch target %08X out of range",data.relocationBase));
 				return false;
@@ -152,7 +152,7 @@ bool ArmElfRelocator::relocateOpcode(int type, const RelocationData& data, std::
 					opcode = 0xEB000000;
 			}
 			
-			if (abs(value) >= 0x2000000)
+			if (value < -0x2000000 || value >= 0x2000000)
 			{
 				errors.emplace_back(tfm::format("Branch target %08X out of range",data.relocationBase));
 				return false;
-- 
2.43.0


From 8404a3292afd63db0896e64d97893d2d149d5186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 77/89] fix: Thumb calls in imported big endian objects were
 damaged

---
 Archs/ARM/Arm.cpp             | 2 +-
 Archs/ARM/ArmElfRelocator.cpp | 8 +++++---
 Archs/ARM/ArmElfRelocator.h   | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/Archs/ARM/Arm.cpp b/Archs/ARM/Arm.cpp
index 6542aac..88a928c 100644
--- a/Archs/ARM/Arm.cpp
+++ b/Archs/ARM/Arm.cpp
@@ -71,7 +71,7 @@ void CArmArchitecture::NextSection()
 
 std::unique_ptr<IElfRelocator> CArmArchitecture::getElfRelocator()
 {
-	return std::make_unique<ArmElfRelocator>(version != AARCH_GBA);
+	return std::make_unique<ArmElfRelocator>(version != AARCH_GBA, getEndianness());
 }
 
 void CArmArchitecture::addPoolValue(ArmOpcodeCommand* command, int32_t value)
diff --git a/Archs/ARM/ArmElfRelocator.cpp b/Archs/ARM/ArmElfRelocator.cpp
index f6c7ec1..fb7d9f8 100644
--- a/Archs/ARM/ArmElfRelocator.cpp
+++ b/Archs/ARM/ArmElfRelocator.cpp
@@ -48,8 +48,10 @@ bool ArmElfRelocator::relocateOpcode(int type, const RelocationData& data, std::
 		break;
 	case R_ARM_THM_CALL:	// ((S + A) | T) - P
 		{
-			unsigned short first = opcode & 0xFFFF;
-			unsigned short second = (opcode >> 16) & 0xFFFF;
+			// the first half comes first in either byte order
+			bool bigEndian = endianness == Endianness::Big;
+			unsigned short first = (bigEndian ? opcode >> 16 : opcode) & 0xFFFF;
+			unsigned short second = (bigEndian ? opcode : opcode >> 16) & 0xFFFF;
 			int opField = ((first & 0x7FF) << 11) | (second & 0x7FF);
 			int a = signExtend(opField << 1,23);
 			int value = (s+a) - p;
@@ -93,7 +95,7 @@ bool ArmElfRelocator::relocateOpcode(int type, const RelocationData& data, std::
 			value >>= 1;
 			first |= (value >> 11) & 0x7FF;
 			second |= value & 0x7FF;
-			opcode = first | (second << 16);
+			opcode = bigEndian ? second | (first << 16) : first | (second << 16);
 		}
 		break;
 	case R_ARM_CALL:		// ((S + A) | T) - P
diff --git a/Archs/ARM/ArmElfRelocator.h b/Archs/ARM/ArmElfRelocator.h
index e46abcd..dc1c608 100644
--- a/Archs/ARM/ArmElfRelocator.h
+++ b/Archs/ARM/ArmElfRelocator.h
@@ -15,7 +15,7 @@ enum {
 class ArmElfRelocator: public IElfRelocator
 {
 public:
-	ArmElfRelocator(bool arm9): arm9(arm9) { }
+	ArmElfRelocator(bool arm9, Endianness endianness): arm9(arm9), endianness(endianness) { }
 	int expectedMachine() const override;
 	bool isDummyRelocationType(int type) const override;
 
@@ -25,4 +25,5 @@ public:
 	std::unique_ptr<CAssemblerCommand> generateCtorStub(std::vector<ElfRelocatorCtor>& ctors) override;
 private:
 	bool arm9;
+	Endianness endianness;
 };
-- 
2.43.0


From ce150fa2ede8a1bb0df2db1ba0fdf18f124a3217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 78/89] fix: object imports in branches not taken looked for
 the file

---
 Archs/MIPS/MipsParser.cpp | 8 ++++++++
 Archs/SuperH/ShParser.cpp | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/Archs/MIPS/MipsParser.cpp b/Archs/MIPS/MipsParser.cpp
index 17e4c0a..d2de019 100644
--- a/Archs/MIPS/MipsParser.cpp
+++ b/Archs/MIPS/MipsParser.cpp
@@ -159,6 +159,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveLoadElf(Parser& parser, int fla
 	if (!parser.parseExpressionList(list,1,2))
 		return nullptr;
 
+	// don't look for the file if it's inside a false block or a macro that is merely analyzed
+	if (!parser.isInsideTrueBlock() || parser.isAnalyzingMacro())
+		return std::make_unique<DummyCommand>();
+
 	StringLiteral inputName, outputName;
 	if (!list[0].evaluateString(inputName,true))
 		return nullptr;
@@ -181,6 +185,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveImportObj(Parser& parser, int f
 	if (!parser.parseExpressionList(list,1,2))
 		return nullptr;
 
+	// don't look for the file if it's inside a false block or a macro that is merely analyzed
+	if (!parser.isInsideTrueBlock() || parser.isAnalyzingMacro())
+		return std::make_unique<DummyCommand>();
+
 	StringLiteral inputName;
 	if (!list[0].evaluateString(inputName,true))
 		return nullptr;
diff --git a/Archs/SuperH/ShParser.cpp b/Archs/SuperH/ShParser.cpp
index c061aff..e40932f 100644
--- a/Archs/SuperH/ShParser.cpp
+++ b/Archs/SuperH/ShParser.cpp
@@ -31,6 +31,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveShImportObj(Parser& parser, int
 	if (!parser.parseExpressionList(list,1,2))
 		return nullptr;
 
+	// don't look for the file if it's inside a false block or a macro that is merely analyzed
+	if (!parser.isInsideTrueBlock() || parser.isAnalyzingMacro())
+		return std::make_unique<DummyCommand>();
+
 	StringLiteral inputName;
 	if (!list[0].evaluateString(inputName,true))
 		return nullptr;
-- 
2.43.0


From f730c1a9074aaec7fd7ec3886101efca68aa584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 79/89] fix: object imports ignored .relativeinclude

---
 Archs/MIPS/PsxRelocator.cpp | 2 +-
 Core/ELF/ElfRelocator.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Archs/MIPS/PsxRelocator.cpp b/Archs/MIPS/PsxRelocator.cpp
index e32ea11..b614542 100644
--- a/Archs/MIPS/PsxRelocator.cpp
+++ b/Archs/MIPS/PsxRelocator.cpp
@@ -325,7 +325,7 @@ checkothertype:
 
 bool PsxRelocator::init(const fs::path& inputName)
 {
-	auto inputFiles = loadPsxLibrary(inputName);
+	auto inputFiles = loadPsxLibrary(getFullPathName(inputName));
 	
 	// The ELF loader will report the error messages, if needed.
 	if (inputFiles.size() == 0)
diff --git a/Core/ELF/ElfRelocator.cpp b/Core/ELF/ElfRelocator.cpp
index ed91ff3..39979a7 100644
--- a/Core/ELF/ElfRelocator.cpp
+++ b/Core/ELF/ElfRelocator.cpp
@@ -105,7 +105,7 @@ bool ElfRelocator::init(const fs::path& inputName)
 		return false;
 	}
 
-	auto inputFiles = loadArArchive(inputName);
+	auto inputFiles = loadArArchive(getFullPathName(inputName));
 	if (inputFiles.size() == 0)
 	{
 		Logger::printError(Logger::Error, "Could not load library");
-- 
2.43.0


From d92e74c79035a5876796694ddf484057911d4993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 80/89] fix: the constructor function of ARM imports could not
 be assembled

---
 Archs/ARM/ArmElfRelocator.cpp | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/Archs/ARM/ArmElfRelocator.cpp b/Archs/ARM/ArmElfRelocator.cpp
index fb7d9f8..8aea806 100644
--- a/Archs/ARM/ArmElfRelocator.cpp
+++ b/Archs/ARM/ArmElfRelocator.cpp
@@ -195,26 +195,15 @@ const char* ctorTemplate = R"(
 	%innerLoopLabel%:
 	ldr	r0,[r6]
 	add	r6,4
-	.if %simpleMode%
-		blx	r0
-	.else
-		bl	%stubName%
-	.endif
+	%call%
 	cmp	r6,r7
-	blt	%innerLooplabel%
+	blt	%innerLoopLabel%
 	cmp	r4,r5
 	blt	%outerLoopLabel%
-	.if %simpleMode%
-		pop	r4-r7,r15
-	.else
-		pop	r4-r7
-		pop	r0
-		%stubName%:
-		bx	r0
-	.endif
+	%return%
 	.pool
 	%ctorTable%:
-	.word %ctorContent%"
+	.word %ctorContent%
 )";
 
 std::unique_ptr<CAssemblerCommand> ArmElfRelocator::generateCtorStub(std::vector<ElfRelocatorCtor>& ctors)
@@ -222,7 +211,8 @@ std::unique_ptr<CAssemblerCommand> ArmElfRelocator::generateCtorStub(std::vector
 	Parser parser;
 	if (ctors.size() != 0)
 	{
-		bool simpleMode = arm9 == false && Arm.GetThumbMode();
+		// blx, and pop that changes the mode
+		bool simpleMode = arm9;
 
 		// create constructor table
 		std::string table;
@@ -238,8 +228,9 @@ std::unique_ptr<CAssemblerCommand> ArmElfRelocator::generateCtorStub(std::vector
 			{ "%ctorTableSize%",	tfm::format("%d",ctors.size()*8) },
 			{ "%outerLoopLabel%",	Global.symbolTable.getUniqueLabelName().string() },
 			{ "%innerLoopLabel%",	Global.symbolTable.getUniqueLabelName().string() },
+			{ "%call%",			simpleMode ? "blx r0" : "bl %stubName%" },
+			{ "%return%",			simpleMode ? "pop r4-r7,r15" : "pop r4-r7\npop r0\n%stubName%:\nbx r0" },
 			{ "%stubName%",		Global.symbolTable.getUniqueLabelName().string() },
-			{ "%simpleMode%",		simpleMode ? "1" : "0" },
 			{ "%ctorContent%",		table },
 		});
 	} else {
-- 
2.43.0


From 95a87402d7fe3688e0e0e012541af9d319424f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 81/89] fix: the constructor function of PSX imports used a
 register before it was loaded

---
 Archs/MIPS/MipsElfRelocator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Archs/MIPS/MipsElfRelocator.cpp b/Archs/MIPS/MipsElfRelocator.cpp
index 7477fa6..d31bb40 100644
--- a/Archs/MIPS/MipsElfRelocator.cpp
+++ b/Archs/MIPS/MipsElfRelocator.cpp
@@ -91,6 +91,7 @@ const char* mipsCtorTemplate = R"(
 	addiu	s0,8
 	%innerLoopLabel%:
 	lw		a0,(s2)
+	nop
 	jalr	a0
 	addiu	s2,4h
 	bne		s2,s3,%innerLoopLabel%
-- 
2.43.0


From 94473046bb0a51f3916a53ca331e5a12f00186fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 82/89] fix: the constructor function of SuperH imports called
 wrong addresses

---
 Archs/SuperH/ShElfRelocator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Archs/SuperH/ShElfRelocator.cpp b/Archs/SuperH/ShElfRelocator.cpp
index f12e3fd..d1404b5 100644
--- a/Archs/SuperH/ShElfRelocator.cpp
+++ b/Archs/SuperH/ShElfRelocator.cpp
@@ -60,7 +60,7 @@ const char* shCtorTemplate = R"(
 	mov		r0,r9
 	%outerLoopLabel%:
 	mov.l	@r8,r10
-	mov.l	@(4,r9),r11
+	mov.l	@(4,r8),r11
 	add		#8,r8
 	%innerLoopLabel%:
 	mov.l	@r10,r4
@@ -78,7 +78,7 @@ const char* shCtorTemplate = R"(
 	mov.l	@r15+,r8
 	.align 4
 	%ctorTable%:
-	.word	%ctorContent%
+	.d32	%ctorContent%
 )";
 
 std::unique_ptr<CAssemblerCommand> ShElfRelocator::generateCtorStub(std::vector<ElfRelocatorCtor>& ctors)
-- 
2.43.0


From 39b047bd37b61e20a8f900a0fc7ab9edab6acb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 83/89] fix: the constructor functions called an entry of empty
 constructor sections

---
 Core/ELF/ElfRelocator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Core/ELF/ElfRelocator.cpp b/Core/ELF/ElfRelocator.cpp
index 39979a7..7825f92 100644
--- a/Core/ELF/ElfRelocator.cpp
+++ b/Core/ELF/ElfRelocator.cpp
@@ -178,7 +178,7 @@ bool ElfRelocator::init(const fs::path& inputName)
 				}
 
 				// keep track of constructor sections
-				if (sec->getName() == ".ctors" || sec->getName() == ".init_array")
+				if ((sec->getName() == ".ctors" || sec->getName() == ".init_array") && sec->getSize() != 0)
 				{
 					ElfRelocatorCtor ctor;
 					ctor.symbolName = Global.symbolTable.getUniqueLabelName();
-- 
2.43.0


From 0411adcbdaf4b00ac4aa343e83e33dd407ffba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 84/89] fix: pool loads of labels behind the pool could keep
 validation from ending

---
 Archs/ARM/CArmInstruction.cpp | 8 +++++++-
 Archs/ARM/CArmInstruction.h   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index 8a868ef..e8a3010 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -279,7 +279,12 @@ bool CArmInstruction::Validate(const ValidateState &state)
 		{
 			int temp;
 
-			if ((temp = getShiftedImmediate(Vars.Immediate,Vars.Shift.ShiftAmount)) != -1)
+			// the value may depend on the size of the pool. In an unordinarily long
+			// validation loop, what has been in the pool stays there
+			if (inPool && state.passes >= 10)
+			{
+				Arm.addPoolValue(this,Vars.Immediate);
+			} else if ((temp = getShiftedImmediate(Vars.Immediate,Vars.Shift.ShiftAmount)) != -1)
 			{
 				// interpete ldr= as mov
 				Vars.Opcode.NewEncoding = 0x03A00000;
@@ -297,6 +302,7 @@ bool CArmInstruction::Validate(const ValidateState &state)
 				Vars.Immediate = temp;
 			} else {
 				Arm.addPoolValue(this,Vars.Immediate);
+				inPool = true;
 			}
 		} else if (Opcode.flags & ARM_BRANCH)
 		{
diff --git a/Archs/ARM/CArmInstruction.h b/Archs/ARM/CArmInstruction.h
index 98ea5a8..b82f555 100644
--- a/Archs/ARM/CArmInstruction.h
+++ b/Archs/ARM/CArmInstruction.h
@@ -76,5 +76,6 @@ private:
 	ArmOpcodeVariables Vars;
 	tArmOpcode Opcode;
 	int64_t RamPos;
+	bool inPool = false;
 	ArmArchType arch;
 };
-- 
2.43.0


From 57b9f9e9b0fff5413e02c38b801667bb414b6a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 85/89] fix: references at several offsets to the same symbol
 of PSX objects were mixed up

---
 Archs/MIPS/PsxRelocator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Archs/MIPS/PsxRelocator.cpp b/Archs/MIPS/PsxRelocator.cpp
index b614542..e16652d 100644
--- a/Archs/MIPS/PsxRelocator.cpp
+++ b/Archs/MIPS/PsxRelocator.cpp
@@ -349,14 +349,14 @@ bool PsxRelocator::init(const fs::path& inputName)
 				// Sort in order of...
 				// - reference type - symbol or offset
 				// - reference id - this groups references to the same symbol/segment/?
-				// - referencePos - this ensure references to the same offset are grouped
+				// - referencePos and relativeOffset - this ensure references to the same offset are grouped
 				// - type - this ensures that HI16 is before LO16
-				auto tie = [](const PsxRelocation &rel)
+				auto key = [](const PsxRelocation &rel)
 				{
-					return std::tie(rel.refType, rel.referenceId, rel.referencePos, rel.type);
+					return std::make_tuple(rel.refType, rel.referenceId, rel.referencePos + rel.relativeOffset, rel.type);
 				};
 
-				return tie(a) < tie(b);
+				return key(a) < key(b);
 			};
 
 			std::stable_sort(seg.relocations.begin(), seg.relocations.end(), sortFunc);
-- 
2.43.0


From e5423047ff2025eaef83a37b9844c3a1f0b72a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 86/89] fix: symbols of PSX objects silently replaced others of
 the same name

---
 Archs/MIPS/PsxRelocator.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Archs/MIPS/PsxRelocator.cpp b/Archs/MIPS/PsxRelocator.cpp
index e16652d..f81e74e 100644
--- a/Archs/MIPS/PsxRelocator.cpp
+++ b/Archs/MIPS/PsxRelocator.cpp
@@ -11,6 +11,7 @@
 
 #include <cstring>
 #include <map>
+#include <set>
 
 struct PsxLibEntry
 {
@@ -363,6 +364,7 @@ bool PsxRelocator::init(const fs::path& inputName)
 		}
 
 		// init symbols
+		std::set<std::shared_ptr<Label>> ownLabels;
 		for (PsxSymbol& sym: file.symbols)
 		{
 			std::string lowered = sym.name;
@@ -375,12 +377,24 @@ bool PsxRelocator::init(const fs::path& inputName)
 				continue;
 			}
 
-			if (sym.label->isDefined() && sym.type != PsxSymbolType::External)
+			// the same object may list a symbol more than once
+			bool isOwn = ownLabels.find(sym.label) != ownLabels.end();
+			if (sym.label->isDefined() && sym.type != PsxSymbolType::External && !isOwn)
 			{
 				Logger::printError(Logger::Error, "Label \"%s\" already defined",sym.name);
 				continue;
 			}
 
+			if (sym.type != PsxSymbolType::External)
+				ownLabels.insert(sym.label);
+
+			// exported symbols can't be defined again
+			if (sym.type == PsxSymbolType::InternalID || sym.type == PsxSymbolType::BSS)
+			{
+				sym.label->setValue(0);
+				sym.label->setDefined(true);
+			}
+
 			sym.label->setOriginalName(Identifier(sym.name));
 		}
 
-- 
2.43.0


From 94dfb9ebd5bc7d4182b5d983bc15980cc2c7f6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 87/89] fix: symbols of PSX objects above 0x80000000 were
 negative

---
 Archs/MIPS/PsxRelocator.cpp | 24 ++++++++++++------------
 Archs/MIPS/PsxRelocator.h   |  4 ++--
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/Archs/MIPS/PsxRelocator.cpp b/Archs/MIPS/PsxRelocator.cpp
index f81e74e..a5c4e32 100644
--- a/Archs/MIPS/PsxRelocator.cpp
+++ b/Archs/MIPS/PsxRelocator.cpp
@@ -404,11 +404,11 @@ bool PsxRelocator::init(const fs::path& inputName)
 	return true;
 }
 
-bool PsxRelocator::relocateFile(PsxRelocatorFile& file, int& relocationAddress)
+bool PsxRelocator::relocateFile(PsxRelocatorFile& file, int64_t& relocationAddress)
 {
-	std::map<int,int> relocationOffsets;
-	std::map<int,int> symbolOffsets;
-	int start = relocationAddress;
+	std::map<int,int64_t> relocationOffsets;
+	std::map<int,int64_t> symbolOffsets;
+	int64_t start = relocationAddress;
 
 	// assign addresses to segments
 	for (PsxSegment& seg: file.segments)
@@ -427,7 +427,7 @@ bool PsxRelocator::relocateFile(PsxRelocatorFile& file, int& relocationAddress)
 	bool error = false;
 	for (PsxSymbol& sym: file.symbols)
 	{
-		int pos;
+		int64_t pos;
 		switch (sym.type)
 		{
 		case PsxSymbolType::Internal:
@@ -458,7 +458,7 @@ bool PsxRelocator::relocateFile(PsxRelocatorFile& file, int& relocationAddress)
 				continue;
 			}
 			
-			symbolOffsets[sym.id] = (int) sym.label->getValue();
+			symbolOffsets[sym.id] = sym.label->getValue();
 			break;
 		}
 	}
@@ -467,7 +467,7 @@ bool PsxRelocator::relocateFile(PsxRelocatorFile& file, int& relocationAddress)
 		return false;
 
 	size_t dataStart = outputData.size();
-	outputData.reserveBytes(relocationAddress-start);
+	outputData.reserveBytes((size_t)(relocationAddress-start));
 
 	// load code and data
 	for (PsxSegment& seg: file.segments)
@@ -539,21 +539,21 @@ bool PsxRelocator::relocateFile(PsxRelocatorFile& file, int& relocationAddress)
 			sectionData.replaceDoubleWord(action.offset, action.newValue);
 		}
 
-		size_t arrayStart = dataStart+relocationOffsets[seg.id]-start;
+		size_t arrayStart = (size_t)(dataStart+relocationOffsets[seg.id]-start);
 		memcpy(outputData.data(arrayStart),sectionData.data(),sectionData.size());
 	}
 
 	return !error;
 }
 
-bool PsxRelocator::relocate(int& memoryAddress)
+bool PsxRelocator::relocate(int64_t& memoryAddress)
 {
 	int oldCrc = getCrc32(outputData.data(),outputData.size());
 	outputData.clear();
 	dataChanged = false;
 
 	bool error = false;
-	int start = memoryAddress;
+	int64_t start = memoryAddress;
 
 	for (PsxRelocatorFile& file: files)
 	{
@@ -593,9 +593,9 @@ DirectivePsxObjImport::DirectivePsxObjImport(const fs::path& fileName)
 
 bool DirectivePsxObjImport::Validate(const ValidateState &state)
 {
-	int memory = (int) g_fileManager->getVirtualAddress();
+	int64_t memory = g_fileManager->getVirtualAddress();
 	rel.relocate(memory);
-	g_fileManager->advanceMemory(memory);
+	g_fileManager->advanceMemory((size_t)memory);
 	return rel.hasDataChanged();
 }
 
diff --git a/Archs/MIPS/PsxRelocator.h b/Archs/MIPS/PsxRelocator.h
index 052289a..b48dd81 100644
--- a/Archs/MIPS/PsxRelocator.h
+++ b/Archs/MIPS/PsxRelocator.h
@@ -57,14 +57,14 @@ class PsxRelocator
 {
 public:
 	bool init(const fs::path& inputName);
-	bool relocate(int& memoryAddress);
+	bool relocate(int64_t& memoryAddress);
 	bool hasDataChanged() { return dataChanged; };
 	const ByteArray& getData() const { return outputData; };
 	void writeSymbols(SymbolData& symData) const;
 private:
 	size_t loadString(ByteArray& data, size_t pos, std::string& dest);
 	bool parseObject(ByteArray data, PsxRelocatorFile& dest);
-	bool relocateFile(PsxRelocatorFile& file, int& relocationAddress);
+	bool relocateFile(PsxRelocatorFile& file, int64_t& relocationAddress);
 	
 	ByteArray outputData;
 	std::vector<PsxRelocatorFile> files;
-- 
2.43.0


From 24d804691e12c2ac387cfb2ad94fede141b7a2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:17 +0000
Subject: [PATCH 88/89] fix: references of PSX objects renamed the symbols they
 refer to

---
 Archs/MIPS/PsxRelocator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Archs/MIPS/PsxRelocator.cpp b/Archs/MIPS/PsxRelocator.cpp
index a5c4e32..b308350 100644
--- a/Archs/MIPS/PsxRelocator.cpp
+++ b/Archs/MIPS/PsxRelocator.cpp
@@ -395,7 +395,9 @@ bool PsxRelocator::init(const fs::path& inputName)
 				sym.label->setDefined(true);
 			}
 
-			sym.label->setOriginalName(Identifier(sym.name));
+			// the name of an external symbol is up to where it's defined
+			if (sym.type != PsxSymbolType::External)
+				sym.label->setOriginalName(Identifier(sym.name));
 		}
 
 		files.push_back(file);
-- 
2.43.0


From 8d79717fb7fc50fcfdfc510b71bb51b8c4c166f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:17 +0000
Subject: [PATCH 89/89] fix: symbols of PSX objects could be used with their
 previous addresses

---
 Archs/MIPS/PsxRelocator.cpp | 10 +++++++++-
 Archs/MIPS/PsxRelocator.h   |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/Archs/MIPS/PsxRelocator.cpp b/Archs/MIPS/PsxRelocator.cpp
index b308350..a8ac09e 100644
--- a/Archs/MIPS/PsxRelocator.cpp
+++ b/Archs/MIPS/PsxRelocator.cpp
@@ -429,21 +429,26 @@ bool PsxRelocator::relocateFile(PsxRelocatorFile& file, int64_t& relocationAddre
 	bool error = false;
 	for (PsxSymbol& sym: file.symbols)
 	{
+		int64_t oldPosition = sym.position;
+
 		int64_t pos;
 		switch (sym.type)
 		{
 		case PsxSymbolType::Internal:
 		case PsxSymbolType::Function:
-			sym.label->setValue(relocationOffsets[sym.segment]+sym.offset);
+			sym.position = relocationOffsets[sym.segment]+sym.offset;
+			sym.label->setValue(sym.position);
 			sym.label->setDefined(true);
 			break;
 		case PsxSymbolType::InternalID:
 			pos = relocationOffsets[sym.segment]+sym.offset;
+			sym.position = pos;
 			sym.label->setValue(pos);
 			sym.label->setDefined(true);
 			symbolOffsets[sym.id] = pos;
 			break;
 		case PsxSymbolType::BSS:
+			sym.position = relocationAddress;
 			sym.label->setValue(relocationAddress);
 			sym.label->setDefined(true);
 			symbolOffsets[sym.id] = relocationAddress;
@@ -463,6 +468,9 @@ bool PsxRelocator::relocateFile(PsxRelocatorFile& file, int64_t& relocationAddre
 			symbolOffsets[sym.id] = sym.label->getValue();
 			break;
 		}
+
+		if (sym.position != oldPosition)
+			dataChanged = true;
 	}
 
 	if (error)
diff --git a/Archs/MIPS/PsxRelocator.h b/Archs/MIPS/PsxRelocator.h
index b48dd81..d104a13 100644
--- a/Archs/MIPS/PsxRelocator.h
+++ b/Archs/MIPS/PsxRelocator.h
@@ -43,6 +43,7 @@ struct PsxSymbol
 	int offset;
 	int id;
 	int size;
+	int64_t position = -1;
 	std::shared_ptr<Label> label;
 };
 
-- 
2.43.0


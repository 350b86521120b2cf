From 294ff257db6af51abedd336a09560d93af7a31ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 01/15] fix: receipts and private transactions hash their parts
 instead of nothing

---
 domain/receipts/builder.go                      | 6 +++++-
 domain/transactions/privates/private_builder.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/domain/receipts/builder.go b/domain/receipts/builder.go
index 75ce327..2128fcc 100644
--- a/domain/receipts/builder.go
+++ b/domain/receipts/builder.go
@@ -53,7 +53,11 @@ func (app *builder) Now() (Receipt, error) {
 		return nil, errors.New("the signature is mandatory in order to build a Receipt instance")
 	}
 
-	hash, err := app.hashAdapter.FromMultiBytes([][]byte{})
+	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
+		app.secret.Hash().Bytes(),
+		[]byte(app.sig.String()),
+	})
+
 	if err != nil {
 		return nil, err
 	}
diff --git a/domain/transactions/privates/private_builder.go b/domain/transactions/privates/private_builder.go
index 910ce8b..d296a8d 100644
--- a/domain/transactions/privates/private_builder.go
+++ b/domain/transactions/privates/private_builder.go
@@ -53,7 +53,11 @@ func (app *privateBuilder) Now() (Private, error) {
 		return nil, errors.New("the receipt is mandatory in order to build a Private instance")
 	}
 
-	hash, err := app.hashAdapter.FromMultiBytes([][]byte{})
+	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
+		app.receipt.Hash().Bytes(),
+		[]byte(app.pk.String()),
+	})
+
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 7a01cf2c3e1e3fee5291d9d26d94055f522e140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 02/15] fix: refuse a ring signature without keys or without
 one scalar per key

---
 domain/cryptography/keys/signature/ringsignature.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/cryptography/keys/signature/ringsignature.go b/domain/cryptography/keys/signature/ringsignature.go
index 1ca0874..ddf6ffb 100644
--- a/domain/cryptography/keys/signature/ringsignature.go
+++ b/domain/cryptography/keys/signature/ringsignature.go
@@ -38,6 +38,10 @@ func (app *ringSignature) Verify(msg string) bool {
 
 	//e = H(m || s[i] * G + e * P[i]);
 	amount := len(app.ring)
+	if amount <= 0 || len(app.s) != amount {
+		return false
+	}
+
 	for i := 0; i < amount; i++ {
 		sg := curve.Point().Mul(app.s[i], g)
 		ep := curve.Point().Mul(e, app.ring[i].Point())
-- 
2.43.0


From 43ffad75881e5bb00366f12fee20b434bbf11936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 03/15] fix: refuse a negative peer port and read back every
 port

---
 domain/peers/peer_builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/peers/peer_builder.go b/domain/peers/peer_builder.go
index 78b1c4c..f6f14f5 100644
--- a/domain/peers/peer_builder.go
+++ b/domain/peers/peer_builder.go
@@ -61,12 +61,12 @@ func (app *peerBuilder) Now() (Peer, error) {
 			return nil, errors.New(str)
 		}
 
-		portInt, err := strconv.Atoi(sections[1])
+		parsedPort, err := strconv.ParseUint(sections[1], 10, strconv.IntSize)
 		if err != nil {
 			return nil, err
 		}
 
-		port := uint(portInt)
+		port := uint(parsedPort)
 		app.port = &port
 		app.host = sections[0]
 	}
-- 
2.43.0


From 893f252a231e5ab48c6bd6e2d51ef4dede873efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 04/15] fix: refuse an empty list of variable declarations

---
 .../scripts/base/parsers/variabledeclarations_builder.go        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/scripts/base/parsers/variabledeclarations_builder.go b/domain/languages/scripts/base/parsers/variabledeclarations_builder.go
index 2f27638..4ae6466 100644
--- a/domain/languages/scripts/base/parsers/variabledeclarations_builder.go
+++ b/domain/languages/scripts/base/parsers/variabledeclarations_builder.go
@@ -27,7 +27,7 @@ func (app *variableDeclarationsBuilder) WithDeclarations(declarations []Variable
 
 // Now builds a new VariableDeclarations instance
 func (app *variableDeclarationsBuilder) Now() (VariableDeclarations, error) {
-	if app.list == nil && len(app.list) <= 0 {
+	if app.list != nil && len(app.list) <= 0 {
 		app.list = nil
 	}
 
-- 
2.43.0


From 20eee7f16dd6eda401f17d0d2ee9cc9d28dcadb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 05/15] fix: read a braced cardinality with spaces around it

---
 domain/languages/lexers/cardinality/specific_adapter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/cardinality/specific_adapter.go b/domain/languages/lexers/cardinality/specific_adapter.go
index 05e6421..f287038 100644
--- a/domain/languages/lexers/cardinality/specific_adapter.go
+++ b/domain/languages/lexers/cardinality/specific_adapter.go
@@ -38,11 +38,11 @@ func createSpecificAdapter(
 // ToSpecific converts content to a specific cardinality
 func (app *specificAdapter) ToSpecific(content string) (Specific, error) {
 	trimmedContent := strings.TrimSpace(content)
-	if strings.HasPrefix(content, app.prefix) {
+	if strings.HasPrefix(trimmedContent, app.prefix) {
 		trimmedContent = trimmedContent[1:]
 	}
 
-	if strings.HasSuffix(content, app.suffix) {
+	if strings.HasSuffix(trimmedContent, app.suffix) {
 		trimmedContent = trimmedContent[:len(trimmedContent)-1]
 	}
 
-- 
2.43.0


From 2b6eea6de9b867d762a425d09e3adaf45957a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 06/15] fix: refuse a negative cardinality

---
 domain/languages/lexers/cardinality/specific_adapter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/domain/languages/lexers/cardinality/specific_adapter.go b/domain/languages/lexers/cardinality/specific_adapter.go
index f287038..7cfed28 100644
--- a/domain/languages/lexers/cardinality/specific_adapter.go
+++ b/domain/languages/lexers/cardinality/specific_adapter.go
@@ -49,7 +49,7 @@ func (app *specificAdapter) ToSpecific(content string) (Specific, error) {
 	builder := app.specificBuilder.Create()
 	sections := strings.Split(trimmedContent, app.rangeSeparator)
 	if len(sections) == 1 {
-		amount, err := strconv.Atoi(sections[0])
+		amount, err := strconv.ParseUint(sections[0], 10, strconv.IntSize)
 		if err != nil {
 			return nil, err
 		}
@@ -58,7 +58,7 @@ func (app *specificAdapter) ToSpecific(content string) (Specific, error) {
 	}
 
 	if len(sections) == 2 {
-		min, err := strconv.Atoi(sections[0])
+		min, err := strconv.ParseUint(sections[0], 10, strconv.IntSize)
 		if err != nil {
 			return nil, err
 		}
@@ -66,7 +66,7 @@ func (app *specificAdapter) ToSpecific(content string) (Specific, error) {
 		rangeBuilder := app.rangeBuilder.Create().WithMinimum(uint(min))
 		trimmedSection := strings.TrimSpace(sections[1])
 		if trimmedSection != "" {
-			max, err := strconv.Atoi(trimmedSection)
+			max, err := strconv.ParseUint(trimmedSection, 10, strconv.IntSize)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 3b00fcab347606b560bfedf85116f4b75303d9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 07/15] fix: keep the dependencies in the order they were given

---
 .../languages/lexers/asts/paths/dependencies_builder.go  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/domain/languages/lexers/asts/paths/dependencies_builder.go b/domain/languages/lexers/asts/paths/dependencies_builder.go
index aa4158e..feb5ada 100644
--- a/domain/languages/lexers/asts/paths/dependencies_builder.go
+++ b/domain/languages/lexers/asts/paths/dependencies_builder.go
@@ -31,14 +31,15 @@ func (app *dependenciesBuilder) Now() (Dependencies, error) {
 		app.list = []Element{}
 	}
 
+	list := []Element{}
 	mp := map[string]Element{}
 	for _, oneElement := range app.list {
 		name := oneElement.Name()
-		mp[name] = oneElement
-	}
+		if _, ok := mp[name]; ok {
+			continue
+		}
 
-	list := []Element{}
-	for _, oneElement := range mp {
+		mp[name] = oneElement
 		list = append(list, oneElement)
 	}
 
-- 
2.43.0


From f80b63eb067498449b16aee4ca6f84cc0d0d4a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 08/15] fix: look a name up among the nodes before looking
 below them

---
 domain/languages/lexers/roots/nodes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/languages/lexers/roots/nodes.go b/domain/languages/lexers/roots/nodes.go
index 3c89ec2..3a3981c 100644
--- a/domain/languages/lexers/roots/nodes.go
+++ b/domain/languages/lexers/roots/nodes.go
@@ -41,6 +41,10 @@ func (obj *nodes) Fetch(name string) (Node, error) {
 
 // Scan scans the node
 func (obj *nodes) Scan(name string) (Root, Node, Container, string, error) {
+	if node, ok := obj.list[name]; ok && node.Name() == name {
+		return nil, node, nil, "", nil
+	}
+
 	for _, node := range obj.list {
 		root, subNode, container, content, err := node.Scan(name)
 		if err != nil {
-- 
2.43.0


From 5fd37ec0282e0f1e602ea530013789465c161c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:22 +0000
Subject: [PATCH 09/15] fix: a group found past the start of the text leaves
 what follows it

---
 domain/languages/lexers/containers/patterns/adapter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 4058980..86df1ac 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -131,8 +131,8 @@ func (app *adapter) FromGroupToResult(group Group, content string) (Result, erro
 		}
 
 		builder := app.resultBuilder.Create().WithDiscoveries(discoveries).WithInput(content)
-		if matchedAmount < uint(len(content)) {
-			builder.WithRemaining(content[matchedAmount:])
+		if remaining := content[i+int(matchedAmount):]; remaining != "" {
+			builder.WithRemaining(remaining)
 		}
 
 		ins, err := builder.Now()
-- 
2.43.0


From 587a9d0ca008df0cbec04f5fcd059d380bd50f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:22 +0000
Subject: [PATCH 10/15] fix: text of a choice that does not match stays in the
 remainder

---
 domain/languages/lexers/containers/patterns/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 86df1ac..ae1a758 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -209,7 +209,6 @@ func (app *adapter) matchPattern(pattern Pattern, content string, nextIndex uint
 			return nil, err
 		}
 
-		remaining = remainingContent
 		if !isMatch && nextGroup != nil {
 			nextBuilder := app.nextBuilder.Create().WithGroup(nextGroup)
 			if oneChoice.IsReverse() {
@@ -229,6 +228,7 @@ func (app *adapter) matchPattern(pattern Pattern, content string, nextIndex uint
 			break
 		}
 
+		remaining = remainingContent
 		discoveriesList = append(discoveriesList, matchedDiscoveries...)
 	}
 
-- 
2.43.0


From 1cd5739c0c9d2741b5d32afda817d405d2832d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:12 +0000
Subject: [PATCH 11/15] fix: a repetition limit above the largest integer no
 longer allows none

---
 domain/languages/lexers/asts/results/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/results/adapter.go b/domain/languages/lexers/asts/results/adapter.go
index bbcf8b7..9b1be84 100644
--- a/domain/languages/lexers/asts/results/adapter.go
+++ b/domain/languages/lexers/asts/results/adapter.go
@@ -62,7 +62,7 @@ func (app *adapter) ToResult(input rules.Rule, script string) (Result, error) {
 				break
 			}
 
-			if pMaxAmount != nil && len(list) >= int(*pMaxAmount) {
+			if pMaxAmount != nil && uint(len(list)) >= *pMaxAmount {
 				break
 			}
 
-- 
2.43.0


From 79771efea6113c7e4447c74f14822e9620ce011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:27 +0000
Subject: [PATCH 12/15] fix: cut the prefix and suffix of a rule match from the
 text it was read from

---
 domain/languages/lexers/asts/adapter.go                | 10 +++++-----
 domain/languages/lexers/asts/tokens/adapter.go         |  2 +-
 domain/languages/lexers/asts/tokens/rulematchresult.go |  8 ++++++++
 .../lexers/asts/tokens/rulematchresult_builder.go      | 10 +++++++++-
 domain/languages/lexers/asts/tokens/sdk.go             |  2 ++
 5 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/domain/languages/lexers/asts/adapter.go b/domain/languages/lexers/asts/adapter.go
index 4e86616..7fb1a68 100644
--- a/domain/languages/lexers/asts/adapter.go
+++ b/domain/languages/lexers/asts/adapter.go
@@ -225,7 +225,7 @@ func (app *adapter) tokenMatch(tokenMatch ast_tokens.TokenMatch) (TokenMatch, er
 func (app *adapter) ruleMatch(ruleMatch ast_tokens.RuleMatch) (RuleMatch, error) {
 	name := ruleMatch.Rule().Base().Name()
 	astResult := ruleMatch.Result().Result()
-	input := ruleMatch.Result().Path().Base().Code()
+	input := ruleMatch.Result().Input()
 	result, err := app.ruleResult(name, astResult, input)
 	if err != nil {
 		return nil, err
@@ -247,7 +247,7 @@ func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input
 	results := ruleResult.Results()
 	discoveriesContent := ruleResult.Discoveries()
 	discoveriesList := []patterns.Discovery{}
-	for _, oneResult := range results {
+	for resultIdx, oneResult := range results {
 		if !oneResult.HasMatches() {
 			break
 		}
@@ -257,7 +257,7 @@ func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input
 			oneDiscoveries := oneMatch.Discoveries()
 			discoveriesList = append(discoveriesList, oneDiscoveries.All()...)
 
-			if idx <= 0 {
+			if resultIdx <= 0 && idx <= 0 {
 				firstIndex = oneMatch.Discoveries().Index()
 			}
 		}
@@ -280,7 +280,7 @@ func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input
 	inputLength := uint(len(input))
 	contentWithPrefixLength := firstIndex + uint(len(discoveriesContent))
 	if contentWithPrefixLength < inputLength {
-		builder.WithSuffix(input[:contentWithPrefixLength])
+		builder.WithSuffix(input[contentWithPrefixLength:])
 	}
 
 	return builder.Now()
@@ -314,7 +314,7 @@ func (app *adapter) results(rule string, results ast_results.Result) (Result, er
 	inputLength := uint(len(input))
 	contentWithPrefixLength := index + uint(len(discoveriesContent))
 	if contentWithPrefixLength < inputLength {
-		builder.WithSuffix(input[:contentWithPrefixLength])
+		builder.WithSuffix(input[contentWithPrefixLength:])
 	}
 
 	return builder.Now()
diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 0def7c4..7ab2e37 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -778,7 +778,7 @@ func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAre
 		return nil, err
 	}
 
-	ruleMatchResult, err := app.ruleMatchResultBuilder.Create().WithResult(result).WithPath(rulePath).Now()
+	ruleMatchResult, err := app.ruleMatchResultBuilder.Create().WithResult(result).WithPath(rulePath).WithInput(script).Now()
 	if err != nil {
 		return nil, err
 	}
diff --git a/domain/languages/lexers/asts/tokens/rulematchresult.go b/domain/languages/lexers/asts/tokens/rulematchresult.go
index 4118ddb..64fe3d7 100644
--- a/domain/languages/lexers/asts/tokens/rulematchresult.go
+++ b/domain/languages/lexers/asts/tokens/rulematchresult.go
@@ -6,15 +6,18 @@ import (
 
 type ruleMatchResult struct {
 	path   paths.Rule
+	input  string
 	result Result
 }
 
 func createRuleMatchResult(
 	path paths.Rule,
+	input string,
 	result Result,
 ) RuleMatchResult {
 	out := ruleMatchResult{
 		path:   path,
+		input:  input,
 		result: result,
 	}
 
@@ -32,6 +35,11 @@ func (obj *ruleMatchResult) Path() paths.Rule {
 	return obj.path
 }
 
+// Input returns the script the rule was matched against
+func (obj *ruleMatchResult) Input() string {
+	return obj.input
+}
+
 // Result returns the result
 func (obj *ruleMatchResult) Result() Result {
 	return obj.result
diff --git a/domain/languages/lexers/asts/tokens/rulematchresult_builder.go b/domain/languages/lexers/asts/tokens/rulematchresult_builder.go
index 7c89460..7c49f22 100644
--- a/domain/languages/lexers/asts/tokens/rulematchresult_builder.go
+++ b/domain/languages/lexers/asts/tokens/rulematchresult_builder.go
@@ -8,12 +8,14 @@ import (
 
 type ruleMatchResultBuilder struct {
 	path   paths.Rule
+	input  string
 	result Result
 }
 
 func createRuleMatchResultBuilder() RuleMatchResultBuilder {
 	out := ruleMatchResultBuilder{
 		path:   nil,
+		input:  "",
 		result: nil,
 	}
 
@@ -31,6 +33,12 @@ func (app *ruleMatchResultBuilder) WithPath(path paths.Rule) RuleMatchResultBuil
 	return app
 }
 
+// WithInput adds an input to the builder
+func (app *ruleMatchResultBuilder) WithInput(input string) RuleMatchResultBuilder {
+	app.input = input
+	return app
+}
+
 // WithResult adds a result to the builder
 func (app *ruleMatchResultBuilder) WithResult(result Result) RuleMatchResultBuilder {
 	app.result = result
@@ -47,5 +55,5 @@ func (app *ruleMatchResultBuilder) Now() (RuleMatchResult, error) {
 		return nil, errors.New("the result is mandatory in order to build a RuleMatchResult instance")
 	}
 
-	return createRuleMatchResult(app.path, app.result), nil
+	return createRuleMatchResult(app.path, app.input, app.result), nil
 }
diff --git a/domain/languages/lexers/asts/tokens/sdk.go b/domain/languages/lexers/asts/tokens/sdk.go
index 2f063bc..5ca1462 100644
--- a/domain/languages/lexers/asts/tokens/sdk.go
+++ b/domain/languages/lexers/asts/tokens/sdk.go
@@ -416,6 +416,7 @@ type RuleMatch interface {
 type RuleMatchResultBuilder interface {
 	Create() RuleMatchResultBuilder
 	WithPath(path paths.Rule) RuleMatchResultBuilder
+	WithInput(input string) RuleMatchResultBuilder
 	WithResult(result Result) RuleMatchResultBuilder
 	Now() (RuleMatchResult, error)
 }
@@ -424,6 +425,7 @@ type RuleMatchResultBuilder interface {
 type RuleMatchResult interface {
 	IsCardinalityValid() bool
 	Path() paths.Rule
+	Input() string
 	Result() Result
 }
 
-- 
2.43.0


From 18c3467fc65ce9ed54aff8a1ced8ee2902b62770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 13/15] fix: the repetitions of a rule must follow each other

---
 .../languages/lexers/asts/tokens/adapter.go   | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 7ab2e37..2a39a66 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -733,7 +733,6 @@ func (app *adapter) tokenPathToTokenResultMatches(
 func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAreActivated bool) (RuleMatch, error) {
 	remaining := script
 	rule := rulePath.Base()
-	scriptLength := len(script)
 	list := []results.Result{}
 	canContainPrefix := app.canContainPrefix && chansAreActivated
 	_, pMax := rulePath.Cardinality().Delimiter()
@@ -747,27 +746,28 @@ func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAre
 			break
 		}
 
+		// the repetitions must follow each other:
+		index := res.Matches().List()[0].Discoveries().Index()
+		if index > 0 && len(list) > 0 {
+			break
+		}
+
 		list = append(list, res)
 		content := res.Content()
 
-		if res.HasMatches() {
-			matches := res.Matches().List()
-			index := matches[0].Discoveries().Index()
-			if index > 0 {
-				app.canContainPrefix = false
-			}
-
-			if index > 0 && !canContainPrefix {
+		if index > 0 {
+			app.canContainPrefix = false
+			if !canContainPrefix {
 				break
 			}
 		}
 
-		contentLength := len(content)
-		if scriptLength <= contentLength {
+		consumed := index + uint(len(content))
+		if uint(len(remaining)) <= consumed {
 			break
 		}
 
-		remaining = remaining[contentLength:]
+		remaining = remaining[consumed:]
 		if pMax != nil && uint(len(list)) >= *pMax {
 			break
 		}
-- 
2.43.0


From 9f481ebfe2caa6739c585be87a01ff39f2dc970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:36 +0000
Subject: [PATCH 14/15] fix: every token of the node tree gets its own root

The roots were cached by the text a token discovered, so a token whose text
another token of the tree had also discovered got the root of that other
token, with its name and nodes, instead of its own.
---
 domain/languages/lexers/roots/adapter.go | 33 +-----------------------
 1 file changed, 1 insertion(+), 32 deletions(-)

diff --git a/domain/languages/lexers/roots/adapter.go b/domain/languages/lexers/roots/adapter.go
index 8482f37..62d6c74 100644
--- a/domain/languages/lexers/roots/adapter.go
+++ b/domain/languages/lexers/roots/adapter.go
@@ -10,7 +10,6 @@ type adapter struct {
 	nodeBuilder       NodeBuilder
 	containersBuilder ContainersBuilder
 	containerBuilder  ContainerBuilder
-	tokenRoots        map[string]Root
 }
 
 func createAdapter(
@@ -26,19 +25,13 @@ func createAdapter(
 		nodeBuilder:       nodeBuilder,
 		containersBuilder: containersBuilder,
 		containerBuilder:  containerBuilder,
-		tokenRoots:        nil,
 	}
 
 	return &out
 }
 
-func (app *adapter) init() {
-	app.tokenRoots = map[string]Root{}
-}
-
 // ToRoot converts a root token to an instance
 func (app *adapter) ToRoot(token asts.Token) (Root, error) {
-	app.init()
 	return app.toRoot(token)
 }
 
@@ -48,21 +41,7 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 		return nil, nil
 	}
 
-	// enter the sub tokens:
 	matches := lineMatch.Matches()
-	for _, oneMatch := range matches {
-		if !oneMatch.IsToken() {
-			continue
-		}
-
-		tokens := oneMatch.Token().Matches()
-		for _, oneToken := range tokens {
-			_, err := app.toRoot(oneToken)
-			if err != nil {
-				return nil, err
-			}
-		}
-	}
 
 	// create the containers map:
 	containersMap := map[string][]Container{}
@@ -72,7 +51,7 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 			tokenName := tokenMatch.Token()
 			matchTokens := tokenMatch.Matches()
 			for _, oneMatchToken := range matchTokens {
-				root, err := app.toRootWithCache(oneMatchToken)
+				root, err := app.toRoot(oneMatchToken)
 				if err != nil {
 					return nil, err
 				}
@@ -127,15 +106,5 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 		return nil, err
 	}
 
-	app.tokenRoots[content] = ins
 	return ins, nil
 }
-
-func (app *adapter) toRootWithCache(token asts.Token) (Root, error) {
-	content := token.Discovery()
-	if ref, ok := app.tokenRoots[content]; ok {
-		return ref, nil
-	}
-
-	return app.toRoot(token)
-}
-- 
2.43.0


From 7959a3dc4bcc66c2a59316cba779646177b86fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:36 +0000
Subject: [PATCH 15/15] fix: scanning a container without root reports a
 missing name

It returned neither an element nor an error, unlike every other element of
the node tree.
---
 domain/languages/lexers/roots/container.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/roots/container.go b/domain/languages/lexers/roots/container.go
index ecc6870..a22ac76 100644
--- a/domain/languages/lexers/roots/container.go
+++ b/domain/languages/lexers/roots/container.go
@@ -1,5 +1,10 @@
 package roots
 
+import (
+	"errors"
+	"fmt"
+)
+
 type container struct {
 	content string
 	name    string
@@ -42,7 +47,8 @@ func (obj *container) Scan(name string) (Root, Node, Container, string, error) {
 	}
 
 	if !obj.HasRoot() {
-		return nil, nil, nil, "", nil
+		str := fmt.Sprintf("the element (name: %s) could not be found in the current Container instance", name)
+		return nil, nil, nil, "", errors.New(str)
 	}
 
 	return obj.root.Nodes().Scan(name)
-- 
2.43.0


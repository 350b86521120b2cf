import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if obs: d["anchors"]["observe_at"]=obs
    P.append(d)

p("H01","Digests are canonical: 64 bytes are taken as is, anything else is SHA-512",
 "A digest made from bytes is those bytes when there are exactly 64 of them and their SHA-512 otherwise; a digest made from several pieces is the digest of the pieces laid end to end in order. Two digests compare equal exactly when all 64 bytes are equal, and the lowercase hexadecimal text of a digest reads back as the same digest while text that is not hexadecimal is refused.",
 ["inputs"],"every byte string of every length, every list of byte strings, every pair of digests, every text",
 "There is no test of the package at all; other tests only use digests built from a few short literals, never compare near-equal digests nor cross the 64-byte special case.",
 ["domain/hash/adapter.go","domain/hash/hash.go"],
 [("digest from bytes, pieces and text","domain/hash/adapter.go"),("comparison and text form","domain/hash/hash.go")])

p("M01","A Merkle tree commits to every block, in order, padded to a power of two",
 "Building a tree from n blocks (a lone block counts as that block followed by an empty one) yields a full binary tree over the block digests in order, followed by digests of the empty byte string up to the next power of two. Every inner digest is the digest of its left child's digest followed by its right child's, so the root digest depends on every block and on the order of the blocks, and the reported number of leaves is that power of two.",
 ["inputs"],"every non-empty list of byte blocks, of every length, with any contents",
 "The tests build trees over a handful of sizes and only check lengths and that re-ordering works; they never recompute the root, so dropping, swapping or duplicating a leaf in some shape can pass.",
 ["domain/hashtree/block.go","domain/hashtree/leaf.go","domain/hashtree/leaves.go","domain/hashtree/parentleaf.go","domain/hashtree/builder.go"],
 [("leaf digests and padding","domain/hashtree/block.go"),("pairing","domain/hashtree/leaves.go"),("inner digest","domain/hashtree/parentleaf.go")])

p("M02","Re-ordering by a Merkle tree returns the blocks in tree order or an error",
 "Given any list of byte blocks, ordering it by a tree either fails, or returns blocks whose digests are, in order, leaf digests of that tree, all taken from the given list, and as many of them as were given. Ordering any permutation of the distinct non-empty blocks a tree was built from returns them in their original order.",
 ["inputs"],"every tree and every list of blocks, permuted arbitrarily or foreign to the tree",
 "The tests shuffle a few random block sets with the right blocks; they never present duplicates, missing, extra or foreign blocks.",
 ["domain/hashtree/hashtree.go","domain/hashtree/leaves.go"],
 [("digest lookup and length check","domain/hashtree/hashtree.go"),("leaf enumeration","domain/hashtree/leaf.go")])

p("C01","A block or chain is complete, and its digest commits to every part of it",
 "A block is only obtained with a height above zero, a fee ring, transactions and a creation time, and a chain only with an identifier, a root and a creation time; each then reports exactly what it was given. The digest of a block is derived, in this order, from height, the digests of fee ring and transactions, creation time (Unix seconds) and, when there is one, the previous block, and that of a chain from identifier, root, creation time (Unix seconds) and head when there is one, so altering any single one of these alters the bytes the digest is taken from.",
 ["inputs"],"every combination of present and absent parts, every height, time and digest",
 "The packages have no tests; only symbolic reasoning over all field values can show that no part is left out of the digest or of the validity check.",
 ["domain/chains/block_builder.go","domain/chains/builder.go","domain/chains/block.go","domain/chains/chain.go"],
 [("block construction","domain/chains/block_builder.go"),("chain construction","domain/chains/builder.go")])

p("T01","A transaction is complete, and its digest commits to every part of it",
 "Transaction content is only obtained with an owner, an amount, an origin, an external part and a creation time, a transaction only with content and a ring signature, and a transaction list only when it is not empty; an origin holds exactly one of a genesis or an earlier transaction and answers with that one's digest. Each digest is derived from all these parts in the order named (the creation time in Unix seconds), and that of a list from the digests of all its members in order, so altering any single part alters the bytes the digest is taken from.",
 ["inputs"],"every combination of present and absent parts and every value of them",
 "The package has no tests.",
 ["domain/transactions/content_builder.go","domain/transactions/transaction_builder.go","domain/transactions/origin_builder.go","domain/transactions/builder.go"],
 [("content","domain/transactions/content_builder.go"),("transaction","domain/transactions/transaction_builder.go"),("origin","domain/transactions/origin_builder.go"),("list","domain/transactions/builder.go")])

p("T02","Hidden-amount secrets, private transactions and receipts commit to their parts",
 "A secret is only obtained with its public transaction, a non-zero amount and a nonce, a receipt only with a secret and a signature, and a private transaction only with a receipt and a private key, and each reports exactly what it was given. The digest of each is derived from all of its parts, and that of a list of them from all members in order, so altering any single part alters the bytes the digest is taken from.",
 ["inputs"],"every combination of present and absent parts and every value of them",
 "The packages have no tests.",
 ["domain/transactions/secrets/secret_builder.go","domain/transactions/secrets/builder.go","domain/transactions/privates/private_builder.go","domain/transactions/privates/builder.go","domain/receipts/builder.go"],
 [("secret","domain/transactions/secrets/secret_builder.go"),("private","domain/transactions/privates/private_builder.go"),("receipt","domain/receipts/builder.go")])

p("G01","Genesis units respect their dates and their digests commit to every part",
 "A genesis is only obtained with units, a fee amount and a creation time no later than the creation of any of its units, and unit content only with a non-zero amount, a nonce and an activation that does not precede its creation. The digest of unit content, unit, unit list, private unit and genesis is derived from every one of its parts, lists in order, so altering any single part alters the bytes the digest is taken from.",
 ["inputs"],"every combination of parts, amounts, nonces and dates, and every list of units",
 "The packages have no tests; the date rules have to hold for each unit of a list of any length.",
 ["domain/genesis/builder.go","domain/genesis/unit_builder.go","domain/genesis/unitcontent_builder.go","domain/genesis/units_builder.go","domain/genesis/privates"],
 [("genesis","domain/genesis/builder.go"),("unit content","domain/genesis/unitcontent_builder.go"),("units","domain/genesis/units_builder.go")])

p("R01","A ring keeps its size bounds and its digest covers every key in order",
 "With minimum and maximum sizes configured, a ring of keys is obtained exactly when the number of keys given lies between them inclusive, and it then holds precisely those keys in that order. Its digest, and that of a non-empty list of rings, is derived from the digests of all members in order.",
 ["inputs","configurations"],"every pair of bounds and every list of keys or rings",
 "The package has no tests; off-by-one bounds only show at the exact limits.",
 ["domain/rings/ring_builder.go","domain/rings/builder.go"],
 [("size check","domain/rings/ring_builder.go"),("list","domain/rings/builder.go")])

p("S01","A signature yields its signer's public key for the signed message",
 "For every private key and message, signing succeeds and the public key recovered from the signature with that message is the signer's public key. The recovery uses the message, the commitment and the response scalar of the signature together, by the Schnorr relation.",
 ["inputs"],"every private key, every message",
 "The tests sign one message with one random key; they cannot show the algebra closes for all keys and messages.",
 ["domain/cryptography/keys/signature/privatekey.go","domain/cryptography/keys/signature/signature.go","domain/cryptography/keys/signature/helper.go"],
 [("signing","domain/cryptography/keys/signature/privatekey.go"),("recovery and verification","domain/cryptography/keys/signature/signature.go")])

p("S02","Any ring member can sign for the ring and the signature verifies",
 "For every ring, every position in it and every message, the holder of the private key at that position obtains a ring signature that reports exactly that ring and verifies for that message. A private key whose public key is not in the ring obtains an error instead.",
 ["inputs"],"every ring length, every signer position, every message",
 "The tests use one ring and one position; closing the ring modulo its length must work for every length and position, including rings of one and the last position.",
 ["domain/cryptography/keys/signature/privatekey.go","domain/cryptography/keys/signature/ringsignature.go"],
 [("ring signing loop","domain/cryptography/keys/signature/privatekey.go"),("verification loop","domain/cryptography/keys/signature/ringsignature.go")])

p("S03","A ring signature is accepted only when its whole challenge chain closes",
 "Verification accepts a ring signature for a message exactly when the ring is not empty, there is one scalar per ring key, and recomputing the challenge through every key with that message returns to the starting challenge. Checking a signature against expected key digests additionally demands the same number of keys and, position by position, the same digests; malformed signatures are refused with an answer or an error, never by crashing.",
 ["inputs"],"every ring signature, including ones decoded from arbitrary text, every message, every list of digests",
 "Tests verify one well-formed signature and one wrong message; malformed signatures, empty rings and digest lists of other lengths are not exercised.",
 ["domain/cryptography/keys/signature/ringsignature.go","domain/cryptography/keys/signature/ringsignature_adapter.go"],
 [("verification","domain/cryptography/keys/signature/ringsignature.go"),("digest comparison","domain/cryptography/keys/signature/ringsignature_adapter.go")])

p("S04","Keys and signatures read back from their text; malformed text is refused",
 "The text of a private key, public key, signature or ring signature reads back as an equal object: same scalar or point, same commitment and response, same ring, scalars and challenge in the same order. Text that does not have the expected sections is refused with an error.",
 ["inputs"],"every key, every signature, every ring length, every text",
 "Tests round-trip single random instances; rings of other lengths and malformed texts are not covered.",
 ["domain/cryptography/keys/signature/adapter.go","domain/cryptography/keys/signature/ringsignature_adapter.go","domain/cryptography/keys/signature/privatekey_adapter.go","domain/cryptography/keys/signature/publickey_adapter.go","domain/cryptography/keys/signature/helper.go"],
 [("decoding","domain/cryptography/keys/signature/ringsignature_adapter.go"),("encoding","domain/cryptography/keys/signature/ringsignature.go")])

p("E01","What is encrypted under a password decrypts to itself under that password",
 "For every password and message, decrypting what was encrypted under the same password returns the message unchanged, and every encryption draws a fresh initialisation vector of one cipher block. A ciphertext shorter than one block, or that is not valid base64, is refused with an error rather than a crash, and no encryptor is obtained without a password.",
 ["inputs"],"every password, message and purported ciphertext",
 "The package has no tests.",
 ["domain/cryptography/encryption.go","domain/cryptography/builder.go"],
 [("encryption and decryption","domain/cryptography")])

p("E02","Asymmetric keys decrypt what their public half encrypts and survive encoding",
 "Decrypting with a private key what its public half encrypted returns the original message, using the same padding, digest and label on both sides. Encoding a private or public key and decoding the text returns the same key, and text that is not base64 or not a key is refused with an error.",
 ["inputs"],"every key pair, message and text",
 "The package has no tests.",
 ["domain/cryptography/keys/encryption"],
 [("private key","domain/cryptography/keys/encryption/privatekey.go"),("encodings","domain/cryptography/keys/encryption/adapter.go")])

p("N01","A peer address reads back from its text; incomplete addresses are refused",
 "A peer is only obtained with a host and a port, given separately or as one text of exactly a host and a decimal port around the separator, and it reports exactly these; a list of peers is never empty. Writing a peer as text and reading that text gives the same host and port, and a negative or non-numeric port is refused.",
 ["inputs"],"every host without the separator, every port, every text",
 "The package has no tests.",
 ["domain/peers/peer_builder.go","domain/peers/peer.go","domain/peers/builder.go"],
 [("parsing","domain/peers/peer_builder.go"),("text form","domain/peers/peer.go")])

p("I01","An identity holds exactly the parts it was given and none it was not",
 "An identity is only obtained with a name and its transactions, and holds a genesis unit exactly when one was given; its transactions hold any combination of received and sent lists, each reported present exactly when given and returned unchanged.",
 ["inputs"],"every combination of present and absent parts",
 "The package has no tests.",
 ["domain/identities/builder.go","domain/identities/transactions_builder.go","domain/identities/identity.go","domain/identities/transactions.go"],
 [("identity","domain/identities/builder.go"),("its transactions","domain/identities/transactions_builder.go")])

p("L01","A cardinality accepts exactly the amounts within its bounds",
 "Optional accepts zero or one, mandatory exactly one, non-zero one or more, zero-or-more anything, an exact amount only itself, a range everything from its minimum to its maximum inclusive or without upper limit when it has none. The interval a cardinality reports has the same bounds, and a cardinality without any kind, or an exact amount of zero, is refused.",
 ["inputs"],"every kind, every bound and every amount",
 "The package has no tests of its own; the language tests use a few amounts.",
 ["domain/languages/lexers/cardinality/cardinality.go","domain/languages/lexers/cardinality/specific.go","domain/languages/lexers/cardinality/range.go","domain/languages/lexers/cardinality/builder.go"],
 [("interval","domain/languages/lexers/cardinality/cardinality.go"),("membership","domain/languages/lexers/cardinality/specific.go")])

p("L02","Cardinality notation is read as written and malformed notation is refused",
 "The notations plus, star, question mark, and braces around an amount, an amount followed by a separator, or two amounts with a separator read, with surrounding spaces ignored, as non-zero, zero-or-more, optional, exact, open range and closed range with exactly those numbers. Braced text with a negative or non-numeric number is refused, and the regular-expression form of every cardinality read denotes the same interval.",
 ["inputs"],"every text given as notation, every number",
 "The package has no tests; the language grammar uses only a few notations.",
 ["domain/languages/lexers/cardinality/adapter.go","domain/languages/lexers/cardinality/specific_adapter.go"],
 [("notation","domain/languages/lexers/cardinality/adapter.go"),("braces","domain/languages/lexers/cardinality/specific_adapter.go")])

p("L03","Pattern search splits its input into prefix, longest discovery and remainder",
 "A group of alternatives matches at a position with its longest alternative that occurs there. Searching an input with a group or pattern reports the earliest position at which it matches, and the reported prefix, discovered text and remainder laid end to end are the input; among several patterns the one matching earliest is kept.",
 ["inputs"],"every input text, every set of alternatives, groups, series and reversals",
 "The tests check chosen inputs that match at the start; matches after a prefix and ties between alternatives are not explored.",
 ["domain/languages/lexers/containers/patterns/adapter.go","domain/languages/lexers/containers/patterns/group.go","domain/languages/lexers/containers/patterns/discoveries.go"],
 [("group search","domain/languages/lexers/containers/patterns/adapter.go"),("longest alternative","domain/languages/lexers/containers/patterns/group.go")])

p("L04","Extracting a rule repeats its pattern over the remainder, within its limit",
 "The result of a rule over a script has the script as input, and its successive discoveries followed by the final remainder are the script from the first discovery on: none is skipped, repeated or re-ordered, and every discovery after the first starts where the previous one ended. The amount reported is the number of discoveries, and content and emptiness are reported accordingly.",
 ["inputs"],"every rule and every script",
 "The tests use fixed short scripts.",
 ["domain/languages/lexers/asts/results/adapter.go","domain/languages/lexers/asts/results/matches.go","domain/languages/lexers/asts/results/result.go"],
 [("extraction loop","domain/languages/lexers/asts/results/adapter.go")])

p("L05","Named collections find each member by its name and refuse duplicates or nothing",
 "Every collection of patterns, groups, rules, tokens, specifiers, links or dependencies keeps its members in the order given (dependencies once for each name) and finds by name a member that carries exactly that name, or fails when there is none. Collections of rules and of tokens refuse two members of the same name, and collections that must have members refuse to be empty.",
 ["inputs"],"every list of members with any names, every name looked up",
 "Tests build fixed lists and look up one name.",
 ["domain/languages/lexers/containers/rules/builder.go","domain/languages/lexers/containers/tokens/builder.go","domain/languages/lexers/containers/patterns/builder.go","domain/languages/lexers/containers/patterns/groups_builder.go","domain/languages/lexers/asts/paths/dependencies_builder.go","domain/languages/lexers/references/links/builder.go"],
 [("rule collection","domain/languages/lexers/containers/rules/builder.go"),("token collection","domain/languages/lexers/containers/tokens/builder.go")])

p("L06","A parsed token is valid exactly when its parts are and its cardinality holds",
 "A repeated token or rule match is valid exactly when the number of repetitions lies within its cardinality and every repetition is valid; a line is valid exactly when all its elements are, a skipped element always, and an element that expected a following one never. A rule match whose results may have no prefix is valid only if its first result was found at the very start of the text. The text discovered by any valid match is the concatenation of the texts discovered by its parts in order, including any channel text before them.",
 ["inputs"],"every tree of matches",
 "Tests look at a few complete parses, never at arbitrary combinations of valid and invalid parts.",
 ["domain/languages/lexers/asts/tokens/tokenresult.go","domain/languages/lexers/asts/tokens/tokenresultmatches.go","domain/languages/lexers/asts/tokens/matches.go","domain/languages/lexers/asts/tokens/match.go","domain/languages/lexers/asts/tokens/blockmatch.go","domain/languages/lexers/asts/tokens/rulematch.go","domain/languages/lexers/asts/tokens/token.go","domain/languages/lexers/asts/tokens/tokenmatch.go"],
 [("repetition","domain/languages/lexers/asts/tokens/tokenresult.go"),("line","domain/languages/lexers/asts/tokens/matches.go")])

p("L07","Token matching keeps the line consuming the most, within repetition limits",
 "Among the alternative lines of a token, matching keeps a valid line whose discovered text is at least as long as that of every other valid line, the first such on ties, and reports its position. An element whose cardinality allows zero occurrences never makes its line invalid by being absent, and no element is repeated beyond its maximum.",
 ["inputs","programs"],"every grammar and every script",
 "The language tests parse fixed scripts with one grammar.",
 ["domain/languages/lexers/asts/tokens/adapter.go"],
 [("line selection and repetition","domain/languages/lexers/asts/tokens/adapter.go")])

p("L08","Resolving a grammar keeps every line, element, cardinality and reference of it",
 "Turning a token into a resolved path keeps each of its lines and elements in order with the same cardinality, taken as mandatory when none is written, and the same specifiers; a reference back to a token being resolved becomes a recursive reference to that name. A token referring only to itself, or to a name that nothing provides, is refused with an error.",
 ["inputs","programs"],"every grammar, including mutually recursive ones",
 "Tests resolve a few fixed grammars.",
 ["domain/languages/lexers/asts/paths/adapter.go"],
 [("resolution","domain/languages/lexers/asts/paths/adapter.go")])

p("L09","The first mistake is reported with its kind, place and position",
 "When a parsed token is faulty, the mistake reported is the first one met in reading order, with the kind and numbers of that fault, the rule or token where it occurred and the names of the tokens around it. The position given is the number of characters read before it, with the line and column that text ends on.",
 ["inputs","programs"],"every faulty token tree and every text read before the fault",
 "Tests check one sample of each kind of mistake.",
 ["domain/languages/lexers/asts/mistakes/adapter.go","domain/languages/lexers/asts/mistakes/content_builder.go","domain/languages/lexers/asts/mistakes/path_builder.go","domain/languages/lexers/asts/mistakes/index_builder.go"],
 [("mistake search","domain/languages/lexers/asts/mistakes/adapter.go")])

p("L10","Reading a script gives either a mistake or a tree, and the tree keeps the text",
 "The outcome of reading a script is a success exactly when no mistake was found, and otherwise carries that mistake. In the resulting tree each match keeps its name and its discovered text, the text of a token is that of its matches in order, and the prefix and suffix of a rule match are the parts of its input before and after the discovered text.",
 ["inputs","programs"],"every grammar and every script",
 "The top-level tree package has no tests of its own.",
 ["domain/languages/lexers/asts/adapter.go","domain/languages/lexers/asts/ast.go","domain/languages/lexers/asts/builder.go","domain/languages/lexers/asts/result.go","domain/languages/lexers/asts/token.go"],
 [("conversion","domain/languages/lexers/asts/adapter.go")])

p("L11","The node tree groups matches by name and finds them by name",
 "The node tree of a token has one node for each distinct name among its matches, holding in order one container per occurrence with the text it discovered. Looking up a name reports the element carrying it, at the element itself before those below it, and an error exactly when there is none.",
 ["inputs"],"every tree and every name",
 "The package has no tests of its own.",
 ["domain/languages/lexers/roots/adapter.go","domain/languages/lexers/roots/container.go","domain/languages/lexers/roots/containers.go","domain/languages/lexers/roots/node.go","domain/languages/lexers/roots/nodes.go","domain/languages/lexers/roots/root.go"],
 [("grouping","domain/languages/lexers/roots/adapter.go"),("look-up","domain/languages/lexers/roots/nodes.go")])

p("L12","A test suite run reports every line of every token that has one",
 "Running the test suites of a grammar gives one report for each token that has a suite, in order, under that token's name, with one result per line at that line's position, successful exactly when that line parses without mistake from that token.",
 ["inputs","programs"],"every grammar and every suite",
 "The package has no tests.",
 ["domain/languages/lexers/suites/application.go","domain/languages/lexers/suites/suite.go","domain/languages/lexers/suites/line.go","domain/languages/lexers/suites/builder.go"],
 [("execution","domain/languages/lexers/suites/application.go")])

p("L13","Links between grammars are found by either end and need both ends",
 "A link is only obtained with a local name, a referenced name and the included grammar it refers to, an include only with a name and paths, and paths only with their mandatory files. Looking a link up by its local name, or by include and referenced name together, returns a link carrying exactly these, and an error when there is none; reference text with too many or too few paths is refused with an error, never by crashing.",
 ["inputs"],"every list of links, every name looked up, every reference text",
 "Tests parse one reference text.",
 ["domain/languages/lexers/references/adapter.go","domain/languages/lexers/references/links/builder.go","domain/languages/lexers/references/links/links.go","domain/languages/lexers/paths/builder.go"],
 [("look-up","domain/languages/lexers/references/links/links.go"),("reference text","domain/languages/lexers/references/adapter.go")])

p("P01","Parser events run by name over matching nodes and return every first success",
 "Running an element by name calls the handlers registered for that name in order and keeps the value of the first one that succeeds, failing when all fail or none is registered. A triggered name collects, in order, one value for each occurrence under the current node; a result reports the values given, the first of them, and whether there is just one, and is refused when there are none.",
 ["inputs","programs"],"every set of handlers, every tree",
 "The tests run one set of handlers that all succeed.",
 ["applications/languages/parsers/manager.go","applications/languages/parsers/result_builder.go","applications/languages/parsers/result.go","applications/languages/parsers/manager_builder.go"],
 [("dispatch","applications/languages/parsers/manager.go"),("result","applications/languages/parsers/result_builder.go")])

p("P02","Base-language operators, types and literals get their own flags and exact values",
 "Every operator keyword is translated to the flag of its family together with its own flag and no other, and every type keyword to its type flag, with one more level of depth for each list around it. A literal becomes a value of its own type equal to what is written, sign included, and type comparison succeeds exactly when depth and flags are equal.",
 ["inputs","programs"],"every combination of operator, type keyword, nesting and literal",
 "Tests only check that scripts convert without error, never which flag or value results.",
 ["domain/languages/scripts/base/parsers/helper.go","domain/languages/scripts/base/parsers/typ.go","domain/languages/scripts/base/parsers/value_builder.go"],
 [("handlers","domain/languages/scripts/base/parsers/helper.go"),("types","domain/languages/scripts/base/parsers/typ.go")])

p("P03","A program object is complete and reports exactly the parts it was given",
 "Every part of a program (program, header, instruction, assignment, loop, condition, operation, list, slice and so on) is only obtained when its mandatory parts are given, holds an optional or alternative part exactly when it was given, and returns it unchanged.",
 ["inputs"],"every combination of present and absent parts of every kind of object",
 "Tests only convert a few complete scripts and look at little more than absence of error.",
 ["domain/languages/scripts/base/parsers"],
 [("builders and accessors","domain/languages/scripts/base/parsers")])

p("P04","Reading a construct of the base language keeps each of its parts",
 "The handler of each construct of the base language (program, instruction, assignment, loop, condition, operation, list, slice, declaration and so on) makes the object of that construct out of what its own parts are worth: each part present is kept in its place, repeated parts in order, a part that is absent is reported absent, and a construct that only wraps another is worth what it wraps.",
 ["inputs","programs"],"every construct, and every value its parts may have",
 "Tests only check that complete scripts convert without error, never which object results.",
 ["domain/languages/scripts/base/parsers/helper.go"],
 [("handlers","domain/languages/scripts/base/parsers/helper.go")])

p("B01","Grammar and syntax objects are complete and report exactly the parts given",
 "Every grammar or syntax object (rules, tokens, lines, elements, blocks, paths, matches, mistakes, results, suites, nodes, references, resources) is only obtained when its mandatory parts are given, holds an optional or alternative part exactly when it was given, and returns it unchanged.",
 ["inputs"],"every combination of present and absent parts of every kind of object",
 "Tests construct the common combinations only.",
 ["domain/languages/lexers/containers","domain/languages/lexers/asts","domain/languages/lexers/suites","domain/languages/lexers/resources","domain/languages/lexers/references","domain/languages/lexers/contents","domain/languages/lexers/paths","domain/languages/lexers/roots"],
 [("builders and accessors","domain/languages/lexers")])

open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
print(len(P))
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
    import re
    n=len(re.findall(r"\.(\s|$)",d["statement"])); 
    if n>3: print(d["id"],n)

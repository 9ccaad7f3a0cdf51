#!/usr/bin/env python3
"""Writes properties.jsonl (the statements live here, in one readable place)."""
import json
LEX="src/lexer/mod.rs"; POS="src/lexer/position.rs"; RNG="src/lexer/range.rs"; TOK="src/lexer/token.rs"; KW="src/lexer/keywords.rs"
SI="src/parser/statement_iterator.rs"; BL="src/parser/blocks.rs"; ST="src/parser/statements/mod.rs"; EX="src/parser/expression/mod.rs"
S=lambda n:f"src/parser/statements/{n}.rs"
X=lambda n:f"src/parser/expression/{n}.rs"
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
nolex="No existing test runs the tokenizer on source text at all (the unit tests build tokens by hand), and a sample of texts could not cover every text."
p("C01","Tokenizing never panics or hangs",
 "For every text (any Unicode, of at most 2^31 - 2 bytes) tokenizing returns: either the complete list of tokens, or an unclosed-multi-line-comment error. It never panics, never slices a character in half, never overflows a position and never loops forever.",
 ["inputs"],"every source text of less than 2^31 - 1 bytes",nolex,[LEX,POS,KW],
 [("tokenize: every loop round consumes at least one character",LEX),("slicing helpers parse_*: cut only at character boundaries inside the text",LEX),("Position += &str",POS)],
 ["lexer::tokenize"])
p("C02","Tokens tile the source text",
 "The tokens of a text are returned in source order; their byte ranges are non-empty, lie inside the text on character boundaries, and never overlap. Everything between, before and after them consists only of spaces, tabs and newlines, so no character of the program is silently lost or consumed twice.",
 ["inputs"],"every source text",nolex,[LEX,POS,RNG],
 [("make_token: range is the consumed slice, and exactly that slice is dropped from the rest",LEX),("parse_whitespace",LEX)],["Token.range.0.bytes","Token.range.1.bytes"],
 [("current_position","position of the not yet tokenized rest",LEX+": tokenize")])
p("C03","Every reported position is accurate",
 "In every position reported by the tokenizer (both ends of each token, and both ends of the unclosed-comment error), `bytes` is a byte offset of the text, `chars` the number of characters before it, `line` one plus the number of newlines before it, and `column` one plus the number of bytes since the last newline. This also holds after newlines inside strings and comments, tabs and non-ASCII characters.",
 ["inputs"],"every source text and every position reported for it",nolex,[POS,LEX,RNG],
 [("Position: Add / AddAssign<&str>",POS),("parse_whitespace: position bookkeeping",LEX),("make_token",LEX)],["Token.range","TokenError range"],
 [("Position{line,column,bytes,chars}","place in the text",POS)])
p("C04","Token contents are exactly the source text",
 "An identifier or symbol token holds exactly the text of its range; a string token the text between its quotes (escapes kept as written; up to the end of the text if unterminated); a comment token the text after BTW, or between OBTW and TLDR. A keyword token's text is the keyword's spelling, a boolean's WIN or FAIL, and a number token holds the value its text denotes: an integer if it has no dot, otherwise the float.",
 ["inputs"],"every source text and every token produced for it",nolex,[LEX,TOK,KW],
 [("parse_identifier / parse_string / parse_number / parse_*_comment / parse_keyword / parse_boolean results",LEX),("tokenize: payload passed to make_token",LEX)],["Token.token_type"])
p("C05","Tokens are classified by the lexical rules",
 "At every token start the kind and length of the token are the ones the lexical rules give: `,` `!` `?` `'Z` `...` (or U+2026), BTW up to the end of the line, OBTW through the first TLDR, a literal WIN/FAIL/NOOB, a keyword, a number (optional sign, digits, at most one dot; an integer must fit 32 bits), a string in double quotes in which a colon protects a following quote or colon, an identifier (the longest run of ASCII letters and underscores), and otherwise a symbol of one character. Earlier rules win over later ones.",
 ["inputs"],"every source text and every token start in it",nolex,[LEX,KW,TOK],
 [("tokenize: order of the alternatives",LEX),("parse_* recognisers",LEX)],["Token.token_type","Token.range"])
p("C06","An unclosed OBTW comment is reported, and only that",
 "Tokenizing fails exactly when an OBTW that starts a token has no TLDR after it. The reported range then starts at that OBTW and ends at the end of the text.",
 ["inputs"],"every source text",nolex,[LEX,TOK],
 [("parse_multi_line_comment: Err when no TLDR",LEX),("tokenize: UnclosedMultilineComment range",LEX)],["lexer::tokenize result"])
p("C07","Keywords are recognised exactly as whole words",
 "Every keyword's spelling is its name with underscores replaced by spaces, and no two keywords share a spelling. A keyword (or WIN, FAIL, NOOB as a literal) is recognised where its spelling occurs at a token start and is not followed by a letter or underscore, and never as the beginning of a longer word; so each keyword that is not a literal or comment marker can be produced by writing its spelling.",
 ["inputs","configurations"],"every keyword of the table, and every text around its spelling",
 "No existing test tokenizes a keyword from text, and the ordering and prefix interplay of 61 keywords with arbitrary following text is not sampled.",[KW,LEX,"lolcode-ast-derive/src/lib.rs","src/to_string_slice.rs"],
 [("derive ToStringSlice / IterableEnum","lolcode-ast-derive/src/lib.rs"),("parse_keyword, parse_boolean, parse_noob, starts_with_word",LEX)],["Keywords::to_string_slice","lexer::tokenize"])
notok="The unit tests parse a few hand-built token rows; they cannot cover every token sequence (any order, any line layout, truncated anywhere)."
p("C08","Parsing never panics or hangs",
 "For every list of tokens, however malformed, in whatever order and with whatever positions, parsing returns a block: it never panics and always terminates. Malformed input shows up only as error nodes. (Exhausting the stack on extremely deep nesting is excluded.)",
 ["inputs"],"every Vec<Token>, including ones the tokenizer cannot produce",notok,[SI,BL,ST,EX,S("o_rly"),S("wtf"),S("im_in_yr"),S("how_is_i")],
 [("parse_block loop: every round consumes a token or ends",BL),("no unwrap/unreachable!/todo! on a reachable path",ST)],["parser::parse"],
 [("StatementIterator","tokens not yet consumed",SI)])
p("C09","Statement boundaries follow lines, commas and ellipses",
 "A statement ends before the first comma, or before the first token that starts on another line than the one where the previous token of the statement ended, and nowhere else; an ellipsis at that point joins the following line to the statement instead and leaves no other trace. Commas and lone ellipses between statements are skipped, however many, and every other token of the program belongs to exactly one statement.",
 ["inputs"],"every token list and line layout",notok,[SI,BL],
 [("StatementIterator::next / peek / next_statement / next_if*",SI),("parse_block",BL)],["parser::parse"],
 [("current_line, peeked, tokens_iter","cursor of the current statement",SI)])
p("C10","Expressions parse to the tree the grammar gives",
 "An expression in prefix notation parses to exactly the tree given by the grammar: each operator keyword to its own operation with its operands in source order (AN between operands optional, MKAY closing an any-arity operation optional at the end of the statement), NOT with one operand, and literals, variables, SRS names and 'Z slot chains as written. Parsing takes exactly the tokens of that expression and leaves the rest of the statement untouched.",
 ["inputs"],"every token sequence and every nesting of operators",notok,[EX,X("binary_operation"),X("unary_operation"),X("nary_operations"),X("variable_access"),X("identifier")],
 [("ASTExpression::parse and the parse functions it calls",EX)],["parser::parse: Node::Expression and expressions inside other nodes"])
p("C11","Simple statements parse to the node they denote",
 "A well-formed one-line statement (declaration, assignment, bukkit slot assignment, VISIBLE, GIMMEH, FOUND YR, GTFO, HAI, KTHXBYE, function call, bare expression) yields exactly one node of its kind, with each part (variable, slot, type or value, arguments in order, exclamation mark, version tokens) taken from its place in the statement. A simple statement never consumes tokens of the next statement.",
 ["inputs"],"every simple statement, with any expressions as parts",notok,[ST,S("i_has_a"),S("assignment"),S("bukkit_set_slot"),S("visible"),S("gimmeh"),S("found_yr"),S("gtfo"),S("hai"),S("kthxbye"),S("i_is")],
 [("parse_statement dispatch",ST),("parse functions of the statements","src/parser/statements")],["parser::parse"])
p("C12","Blocks nest by their closing keywords",
 "Loops, functions, O RLY? and WTF? yield one node whose inner blocks hold exactly the statements between their own delimiters (possibly none), in order, each in the branch it is written in, at any nesting depth. The block ends at its own closing keyword, and the statements after it belong to the enclosing block.",
 ["inputs"],"every program with any nesting of blocks",notok,[BL,S("im_in_yr"),S("how_is_i"),S("o_rly"),S("wtf")],
 [("parse_block and its stop predicates",BL),("ImInYr::parse, HowIzI::parse, ORly::parse, Wtf::parse","src/parser/statements")],["parser::parse"])
p("C13","Malformed statements give the right error and token",
 "When a statement does not fit the grammar, its place in the block holds an error whose kind states what is missing or unexpected, carrying the offending token, or, when something is missing, the token it should have followed. Tokens left over after a complete statement are reported, all of them and in order, as one too-many-tokens error, and a well-formed program yields no error node.",
 ["inputs"],"every malformed token sequence and every place where it is malformed",notok,["src/parser/error.rs",ST,BL,EX,S("assignment"),S("i_has_a"),S("i_is"),S("im_in_yr"),S("how_is_i"),S("o_rly"),S("wtf")],
 [("Err results of the parse functions","src/parser"),("StatementIterator::next_statement_should_be_empty",SI)],["parser::parse: Node::ASTError"])
p("C14","Iterating errors yields every error exactly once",
 "Iterating over a block's errors yields every error node in it, including those nested at any depth inside loops, functions, conditionals and switches, each exactly once and in source order, and then ends; it yields nothing else and never panics.",
 ["inputs","histories"],"every AST block, with errors anywhere in any nesting",
 "No existing test calls it; the number of nestings of blocks and error places is unbounded.",[BL],
 [("ASTBlockErrorIterator::next, Node::get_inner_block",BL)],["ASTBlock::iter_errors"],
 [("pending","nodes still to visit",BL)])
p("C15","Token iteration returns the tokens a node was made of",
 "Iterating over the tokens of a parsed expression, variable access or assignment yields exactly the tokens it was parsed from, all of them, each once and in source order (including SRS, 'Z, AN, R and MKAY tokens; ellipses are not part of a node), and then ends for good. It works at every nesting depth and never panics.",
 ["inputs","histories"],"every parsed expression, variable access and assignment",
 "The tests check a handful of small trees; shapes (operators, optional AN/MKAY, slot chains, nesting) are unbounded.",
 [EX,X("binary_operation"),X("unary_operation"),X("nary_operations"),X("variable_access_iterator"),X("identifier_iterator"),S("assignment")],
 [("state machines of the token iterators","src/parser/expression")],["ASTExpression::tokens and the other tokens() methods"],
 [("state","what the iterator yields next",X("*"))],"parser::verif_hooks re-exports the trait behind VariableAssignment::tokens() and range()")
p("C16","A node's range spans exactly its tokens",
 "The range of a parsed expression, variable access or assignment starts where its first token starts and ends where its last token ends.",
 ["inputs"],"every parsed expression, variable access and assignment",
 "Only a few ranges are checked by tests; optional parts (SRS, slots, AN, MKAY) decide which token is last.",
 [EX,X("variable_access"),X("identifier"),S("assignment")],[("range() methods",EX)],["ASTExpression::range and the other range() methods"],(),"parser::verif_hooks")
p("C17","Comments never change the AST",
 "Removing all comment tokens from a token list does not change the result of parsing it: comments may stand between statements, after a statement, inside one or after an ellipsis.",
 ["inputs"],"every token list with comments anywhere",notok+" No test contains a comment.",[SI,"src/parser/mod.rs"],
 [("StatementIterator::new drops comment tokens",SI)],["parser::parse"])
p("C18","Errors stay local to their statement",
 "Parsing a program made of complete lines is compositional: if a prefix of the program ends at a statement boundary at which no block is open, the resulting block is the result for the prefix followed by the result for the rest. So a malformed one-line statement changes neither the nodes before it nor those after it, and every statement after an error is still parsed.",
 ["inputs"],"every program, every error in it and every split into two parts at a top-level statement boundary",notok,[BL,SI,ST],
 [("parse_block: error node, then continue with the next statement",BL),("StatementIterator::next_statement",SI)],["parser::parse"])
p("C19","AST and errors contain only tokens of the input, in order",
 "Every token found in the AST, error nodes included, is a token of the input, unchanged and with its own range; no input token appears in two places, and the parts of a node appear in source order.",
 ["inputs"],"every token list",notok,[EX,ST,BL,SI],
 [("parse functions move tokens from the input into nodes","src/parser")],["parser::parse"])
p("C20","Tokenize-and-parse is the composition of its two steps",
 "For every text, the one-step entry point returns the tokenizer's error if tokenizing fails, and otherwise exactly the block that parsing the tokenizer's tokens gives.",
 ["inputs"],"every source text","Its only test is a documentation example that does not compile.",["src/lib.rs"],[("tokenize_and_parse","src/lib.rs")],["tokenize_and_parse"])
p("C21","Positions compare by place in the text",
 "For any two positions reported for the same text, they are equal exactly when they denote the same place, and the order between them is the order of these places in the text. Ranges are equal exactly when both their ends are equal.",
 ["inputs"],"every source text and every pair of positions reported for it","Equality and order use different fields of a position, and agree only because all positions are accurate; no test compares positions from real texts.",
 [POS,RNG],[("PartialEq and PartialOrd of Position, PartialEq of Range",POS)],["Position ==, <, partial_cmp","Range =="])
import os,sys
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if sch:
    for x in P: jsonschema.validate(x,sch)
print(len(P))

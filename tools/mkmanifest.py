"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification (Verus) of the functions extracted from /repo/src on every run'
COMMON = (' Trusted: Verus/Z3, the mechanical extraction, the specifications of library functions listed in the evidence file;'
          ' an executable oracle of the same property runs against the real crate beside it, and stands in, labelled bounded,'
          ' for any function that a change puts outside the verifier\'s reach.')
CLAIMS = {
 'C01': ('tokenize and every function it calls are proved to terminate and to meet no slice off a character boundary, no overflow and no other panic, for every text of at most 2^31 - 2 bytes.', ['tokenize']),
 'C02': ('good_tiles is an invariant of the loop of tokenize: tokens in order, not empty, on character boundaries, disjoint, and only white space between them; at the end it holds of the whole text.', ['tokenize']),
 'C03': ('good_positions is an invariant of the loop of tokenize; Position::add_assign and parse_whitespace are proved to advance every field as the text read does.', ['tokenize', 'Position::add_assign', 'parse_whitespace']),
 'C04': ('good_content is an invariant of the loop of tokenize: what a token carries is a function of the text of its range.', ['tokenize', 'parse_string', 'parse_number']),
 'C05': ('good_class is an invariant of the loop of tokenize: kind and length at every token start are those of the rules lex_len and class_ok.', ['tokenize', 'parse_number', 'parse_string', 'parse_identifier']),
 'C06': ('tokenize is proved to fail exactly when lex_fail(text) finds an unclosed OBTW at a token start, with the range from there to the end.', ['tokenize', 'parse_multi_line_comment']),
 'C07': ('parse_keyword and starts_with_word are proved against the whole-word rule; spellings are proved to be the names with spaces; that no text has two keywords at its beginning is proved for the keyword table of the current source.', ['parse_keyword', 'starts_with_word', 'Keywords::to_string_slice', 'Keywords::iter', 'theorem_kw_unique', 'theorem_kw_distinct', 'theorem_kw_producible']),
 'C08': ('Every parser function terminates and meets no panic (unwrap, index, overflow, todo!) for every token list.', ['parse', 'parse_block', 'parse_statement', 'ASTExpression::parse']),
 'C09': ('StatementIterator is proved to refine the view (rest of this statement, source after it); next_statement and every parse function consume per that view.', ['StatementIterator::next_statement', 'StatementIterator::next', 'StatementIterator::peek']),
 'C10': ('ASTExpression::parse and its parts are proved equal to the grammar function p_expr on the views, for every token sequence and depth.', ['ASTExpression::parse']),
 'C11': ('Each statement parser is proved equal to the grammar function p_simple.', ['parse_statement']),
 'C12': ('parse is proved to return p_program(tokens): the recursive grammar of blocks.', ['parse']),
 'C13': ('The error branch of the same grammar functions (kind and carried token) is proved equal.', ['parse']),
 'C14': ('ASTBlockErrorIterator::next and the node methods it uses are proved to yield the errors of the flattening of the block, in order, each once, and then None for good.', ['ASTBlockErrorIterator::next', 'ASTBlock::iter_errors']),
 'C15': ('next() of every token iterator yields the head of the tokens its node has left, and terminates; theorem_c15_expression and theorem_c15_assignment, over the contracts of the parsers: the tokens of a parsed node followed by the tokens left are the tokens there were before.', ['ASTExpressionIterator::next', 'theorem_c15_expression', 'theorem_c15_assignment']),
 'C16': ('range() is proved to be (first token start, last token end) of the tokens of the node, which theorem_c15_* show to be the tokens it was parsed from.', ['ASTExpression::range', 'theorem_c15_expression', 'theorem_c15_assignment']),
 'C17': ('parse(tokens) is proved to return p_program of the tokens without comments, and p_program(no_comments(no_comments(s))) to be p_program(no_comments(s)).', ['parse', 'theorem_c17']),
 'C18': ('theorem_c18, over the contract of parse: if a statement ends where a prefix of the tokens ends and its block does not end in the error of an unclosed block, parse of the whole is parse of the prefix followed by parse of the rest; theorem_c18_one_line: a statement that opens no block gives nodes that depend on its own tokens alone, at any depth, and the next statement is parsed after it.', ['parse', 'theorem_c18', 'theorem_c18_one_line']),
 'C19': ('theorem_c19, over the contract of parse: the tokens found in the nodes of parse(tokens), error nodes included, in the order of the parts, are a subsequence of the tokens.', ['parse', 'theorem_c19']),
 'C20': ('tokenize_and_parse is proved to return Err(e) when tokenize returns Err(e), and otherwise Ok of what parse returns for the tokens of tokenize, with tokenize and parse as uninterpreted functions of their arguments (determinism assumed).', ['tokenize_and_parse']),
 'C21': ('eq and partial_cmp are proved to compare (line, column) and bytes; for accurate positions of one text this is proved to be equality and order of places.', ['Position::eq', 'Position::partial_cmp', 'Range::eq', 'theorem_c21']),
}
NOT_YET = 'not claimed yet: the contracts for it are being written'
ALL = ['C%02d' % i for i in range(1, 22)]
m = {
 'version': 1,
 'setup_cmd': 'python3 check.py --setup',
 'hooks': {'guard': 'lolcode_verif (cfg flag)', 'enable': 'RUSTFLAGS="--cfg lolcode_verif"', 'source_commits': ['706cd2c']},
 'checks': [{
    'property': p,
    'quick_cmd': 'python3 check.py %s --tier quick' % p,
    'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
    'evidence_file': 'evidence/%s.json' % p,
    'technique': TECH,
    'level': 'proof',
    'level_note': CLAIMS[p][0] + COMMON,
    'theorems': CLAIMS[p][1],
 } for p in ALL if p in CLAIMS],
 'not_applicable': [{'property': p, 'reason': NOT_YET} for p in ALL if p not in CLAIMS],
 'notes': 'See DESIGN.md.',
}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')

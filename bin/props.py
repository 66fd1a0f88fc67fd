"""The properties, and what decides each. bin/mk.py writes properties.jsonl and MANIFEST.json from this."""

L, P, X, V, N = 'parser/lexer.go', 'parser/parser.go', 'parser/expression.go', 'validator/checker.go', 'pn/pn.go'


def mech(*ms):
    return [{'name': n, 'where': w} for n, w in ms]


TESTS = 'the tests parse a few hundred fixed snippets'

PROPS = [
 dict(id='C01', title='Every source ends in a syntax tree or one reported error',
  statement='For every sequence of bytes and every parser mode, parsing terminates and yields either a syntax tree or one reported error; it never panics, hangs or yields neither. A tree results exactly when the source is a program of the language of that mode.',
  over=['inputs', 'configurations'], text='all byte sequences (valid UTF-8 or not) x all combinations of EPP, hex escape, backtick, tasks, workflow and single expression mode',
  why=TESTS + ', almost all well formed; totality and exact acceptance quantify over every text, including damaged ones', files=[L, P, 'parser/reader.go'],
  mech=mech(('recovery from reported panics', P + ' Parse'), ('reader that detects NUL and invalid UTF-8', 'parser/reader.go'), ('recursive descent with one token lookahead', P)), observe=['Parse result', 'process exit']),
 dict(id='C02', title='Source text splits into the tokens that the language defines',
  statement='Scanning any text with the lexer yields exactly the tokens that the language defines, in order, each at its line and column, with white space and comments skipped, longest operators first and context sensitive tokens (regular expressions versus division, keywords versus names, list versus subscript brackets) decided as defined. A text that cannot be scanned is reported at the exact place where it goes wrong.',
  over=['inputs'], text='all texts', why='the lexer is tested only through whole programs; the interplay of adjacent tokens is combinatorial', files=[L, 'parser/reader.go'],
  mech=mech(('token recognition', L + ' nextToken'), ('regular expression acceptability', L), ('skipping of white space and comments', L + ' skipWhite')), observe=['NewSimpleLexer, NextToken, SyntaxError']),
 dict(id='C03', title='Operators bind by the defined precedence and associativity',
  statement='Every expression built from operators, accesses, selectors, parentheses and literals parses to the tree given by the defined precedence levels and the defined associativity of every level. Unary minus on numbers is folded only where defined, and parentheses are kept as such.',
  over=['programs'], text='all operator chains and nestings of any length', why='tests fix some pairs of operators; the grammar has 13 levels and every combination and nesting counts', files=[P],
  mech=mech(('one function for each level of precedence', P + ' orExpression..unaryExpression'), ('relationship and assignment', P)), observe=['the syntax tree']),
 dict(id='C04', title='Statements, conditionals and definitions parse to the defined tree',
  statement='Every sequence of statements with conditionals, case options, selectors, classes, defines, functions, plans, nodes, type aliases, type definitions, sites and applications parses to exactly the tree that the grammar gives: names, parents, parameters, return types, branches and bodies are neither lost, merged nor reordered. Statement boundaries are decided as defined, and definitions in a namespace get their qualified names.',
  over=['programs'], text='all programs', why=TESTS + '; omitted and repeated clauses and their nesting are combinatorial', files=[P],
  mech=mech(('statement sequences', P + ' parse'), ('definitions', P + ' classExpression, functionDefinition, nodeDefinition, typeAliasOrDefinition'), ('name stack', P + ' qualifiedName')), observe=['the syntax tree']),
 dict(id='C05', title='Resources, overrides, defaults and collectors parse as defined',
  statement='Every resource expression parses to the defined form (regular, virtual, exported, class, defaults or override) with its bodies, titles and attribute operations in order, and every collector to its type, query and attribute operations. A thing that has the shape of a resource but is not one is rejected.',
  over=['programs'], text='all resource and collector expressions, in every expression context', why=TESTS + '; the shape decides between four forms and depends on what precedes the brace', files=[P],
  mech=mech(('resource shapes', P + ' resourceExpression, resourceShape'), ('collectors', P + ' collectExpression'), ('attribute operations', P)), observe=['the syntax tree']),
 dict(id='C06', title='Calls, arguments, lambdas and parameters parse as defined',
  statement='Calls in all their forms (named, chained method calls, statement calls without parentheses, calls of types and of arbitrary expressions) parse to the defined call with all of its arguments, splats, trailing hash arguments and block. Parameters keep their type, name, default and captures-rest marker.',
  over=['programs'], text='all programs with calls', why=TESTS + '; which names may be called without parentheses, and with what, depends on the surrounding statement', files=[P],
  mech=mech(('statement calls', P + ' transformCalls'), ('method calls', P + ' convertLhsToCall'), ('lambda and parameters', P)), observe=['the syntax tree']),
 dict(id='C07', title='Quoted strings and regular expressions denote the defined text',
  statement='The value of every quoted string and regular expression literal is the text that its escape rules define, in every quoting style and with every lexer option. Escapes that are not defined are kept or rejected as defined, and an unterminated literal is rejected at its start.',
  over=['inputs', 'configurations'], text='all string literals of any content x the hex escape and backtick options', why='tests cover a handful of escapes one at a time; sequences, unknown escapes and truncated escapes are not covered', files=[L],
  mech=mech(('single quoted strings', L + ' consumeSingleQuotedString'), ('double quoted strings', L + ' consumeDelimitedString'), ('unicode escapes', L + ' appendUnicode')), observe=['the value of string literals']),
 dict(id='C08', title='Interpolation embeds the expression that the source spells',
  statement='A double quoted string with interpolations parses to the concatenation of its literal parts and its expressions, in order and with nothing lost. Each embedded expression is the tree that its text has as a source of its own, except that a leading name is a variable, and has the positions of its text in the enclosing source.',
  over=['inputs', 'programs'], text='all interpolated strings and heredocs, with any nesting of strings and braces', why=TESTS + '; nesting, adjacency and offsets inside strings are unbounded', files=[L],
  mech=mech(('interpolation', L + ' handleInterpolation'), ('leading name as variable', L + ' convertNamedAccessLHS')), observe=['the syntax tree and the positions of its nodes']),
 dict(id='C09', title='Heredoc text is what its tag, escapes and margin define',
  statement='Every heredoc yields the text between the line after its tag and its end marker, with the margin stripped, exactly the enabled escapes applied, the trailing newline kept or suppressed as marked and the syntax recorded. Several heredocs may start on one line, and what follows the tag on that line continues as if the heredoc were an ordinary string.',
  over=['inputs', 'programs'], text='all heredocs: tags, flags, margins, bodies, positions in the source', why=TESTS + '; margins, escape flags, line ends and several heredocs on a line interact', files=[L],
  mech=mech(('heredoc', L + ' consumeHeredocString'), ('margin', L + ' stripIndent'), ('escapes', L + ' applyEscapes')), observe=['the heredoc node, its text, the rest of the tree']),
 dict(id='C10', title='EPP templates render text and expressions in the defined order',
  statement='An EPP source parses to its parameters and the sequence of its literal text and expressions in order, where text outside tags is literal, comment tags vanish, escaped tags stay as text, and white space is trimmed only where a tag asks for it.',
  over=['inputs', 'programs'], text='all EPP sources', why=TESTS + '; text, tags, trimming and embedded statements interact', files=[L, P],
  mech=mech(('EPP text', L + ' consumeEPP'), ('EPP program', P + ' parseTopExpression')), observe=['the syntax tree']),
 dict(id='C11', title='Number literals denote their exact value and radix, or are rejected',
  statement='Every decimal, octal, hexadecimal and floating point literal yields its exact value and radix. Numbers that are malformed or do not fit are rejected where they go wrong, and what follows a number is never swallowed.',
  over=['inputs'], text='all number literals and what follows them', why='tests use small numbers; limits, leading zeros, exponents and adjacent dots are not covered', files=[L],
  mech=mech(('numbers', L + ' consumeNumber'),), observe=['the value and radix of number literals']),
 dict(id='C12', title='The first syntax error is reported exactly: what, where and how',
  statement='A source that is not in the language is rejected with the issue code, line, column, arguments and message that the first error defines: the error is that of the first construct that cannot be completed, and its message names the construct or token concerned.',
  over=['inputs', 'configurations'], text='all rejected sources in all modes', why='tests check a few dozen messages, usually without the position', files=[P, L, 'parser/issues.go', 'parser/label.go'],
  mech=mech(('issue creation', P + ' parseIssue'), ('token names', L + ' tokenMap'), ('labels', 'parser/label.go')), observe=['the reported issue']),
 dict(id='C13', title='Every node of the tree knows exactly where it comes from',
  statement='Every node of a syntax tree has the byte offset, byte length, line and column of the construct that it stands for, whatever precedes it: multi byte characters, line ends of any style, comments, heredocs and interpolations included. The position of a node does not depend on the order in which positions are asked for.',
  over=['programs'], text='all programs and all of their nodes', why='tests check offsets of a few nodes in ASCII sources', files=[X, P, L],
  mech=mech(('locator', X + ' Locator'), ('positions of nodes', P)), observe=['ByteOffset, ByteLength, Line, Pos of all nodes']),
 dict(id='C14', title='Traversal visits every node once, in order, with its ancestors',
  statement='Deep traversal of any tree visits every descendant exactly once, parents before children and siblings in order, and gives the visitor the full path of ancestors. Shallow traversal visits exactly the direct children.',
  over=['programs'], text='all trees', why='tests never traverse most kinds of nodes', files=[X],
  mech=mech(('traversal', X + ' DeepVisit, ShallowVisit'), ('contents of each kind of node', X + ' AllContents, Contents')), observe=['visits of AllContents and Contents']),
 dict(id='C15', title='The PN form of a tree is complete and well formed',
  statement='Every syntax tree converts to PN: the form has the operator and the named parts that PN defines for each construct, with nothing lost, and its text quotes and formats every literal so that it reads back as the same value (floats with the documented precision of sixteen digits).',
  over=['programs'], text='all trees', why=TESTS + ' and compare PN for them; quoting, numbers and optional parts are combinatorial', files=[X, N, 'pn/quote.go'],
  mech=mech(('conversion', X + ' ToPN'), ('text', N + ' Format'), ('quoting', 'pn/quote.go')), observe=['ToPN().ToData(), Format, String']),
 dict(id='C16', title='The JSON form of a tree says the same as its PN form',
  statement='The JSON form of every tree is valid JSON that carries exactly the operators, keys, lists and literals of the PN form, in order, with strings escaped only as JSON requires.',
  over=['programs'], text='all trees', why='one test file checks a few JSON outputs', files=[N, 'json/json.go'],
  mech=mech(('data form', N + ' ToData'), ('encoding', 'json/json.go')), observe=['JSON text']),
 dict(id='C17', title='Literal extraction gives the value exactly for literals',
  statement='Extracting the literal value of an expression gives the value that the source spells exactly when the expression consists of literals only, however nested, and says so otherwise; it never fails in any other way.',
  over=['programs'], text='all expressions', why='no test extracts literals from anything but plain values', files=['literal/literal.go'],
  mech=mech(('literal values', 'literal/literal.go ToLiteral'),), observe=['literal.ToLiteral of all nodes']),
 dict(id='C18', title='Validation reports exactly the violations that the rules define',
  statement='Validating any tree reports exactly the semantic violations that the rules define, each with its code, position and message, in traversal order: nothing illegal passes and nothing legal is reported.',
  over=['programs'], text='all programs', why='each rule has one or two tests; where in a program and in what combination a violation occurs is unbounded', files=[V, 'validator/validator.go', 'validator/issues.go'],
  mech=mech(('rules', V), ('dispatch by node kind', V + ' Validate'), ('issue texts', 'validator/issues.go')), observe=['Issues() of the validator']),
 dict(id='C19', title='Strictness only changes the severity of the demotable issues',
  statement='The strictness setting decides only whether the demotable issues are ignored, warnings or errors; every other issue is always reported as an error. The issues reported under a laxer setting are the issues under a stricter one with severities lowered.',
  over=['programs', 'configurations'], text='all programs x all strictness settings', why='tests use one setting for most rules', files=[V, 'validator/validator.go'],
  mech=mech(('demotion', V + ' NewChecker, Demote'), ('severity', 'validator/validator.go Accept')), observe=['severities of the issues']),
 dict(id='C20', title='Task scripts: plans parse, catalog operations are refused',
  statement='With tasks enabled, plan is a keyword and a plan definition parses with its name, parameters and body; without, it is an ordinary name. The validator for tasks reports every catalog operation, however deeply nested, and apart from that what the ordinary validator reports.',
  over=['programs', 'configurations'], text='all programs x tasks enabled or not', why='the tests for tasks have one snippet for each operation', files=[P, 'validator/tasks_checker.go'],
  mech=mech(('plan', P + ' planDefinition'), ('refusals', 'validator/tasks_checker.go')), observe=['tree, issues']),
 dict(id='C21', title='Workflow steps parse with their style, properties and qualified names',
  statement='With workflows enabled, every step parses to its style, its name qualified by the workflows around it, its properties, its iteration and its body, with references in the state of a resource deferred; without, the same words are ordinary names. The validator for workflows reports what it defines for such programs.',
  over=['programs', 'configurations'], text='all workflow sources', why='a dozen snippets; styles, properties, iterations and nesting combine', files=[P, 'parser/workflow.go', 'validator/workflow_checker.go'],
  mech=mech(('steps', P + ' stepDeclaration'), ('deferred references', P + ' convertToDeferred'), ('restrictions', 'validator/workflow_checker.go')), observe=['tree, errors, issues']),
 dict(id='C22', title='A program lists exactly the definitions that it contains',
  statement='The definitions of a program are exactly the classes, defines, functions, plans, nodes, types, applications, sites, capability mappings and top level steps found in it, each once and in source order, whatever constructs they are nested in and whatever lookahead or backtracking the parser did.',
  over=['programs'], text='all programs', why='tests look at the definitions of one or two programs', files=[P, X],
  mech=mech(('collection of definitions', P + ' addDefinition'),), observe=['Definitions() of the program']),
 dict(id='C23', title='A parser forgets: results do not depend on what it parsed before',
  statement='The result of parsing a source depends only on the source and the options of the parser: not on sources that the same parser parsed before, accepted or not, and not on other parsers at work at the same time. Trees obtained earlier stay as they were.',
  over=['histories', 'schedules'], text='all histories of parses with one or several parsers, also concurrently', why='tests make a new parser for every source', files=[P],
  mech=mech(('reset for each parse', P + ' Parse'),), observe=['results of successive and concurrent parses']),
 dict(id='C24', title='A validator reports on the last tree only; the combined form agrees',
  statement='After validating a tree, or a part of one as a tree of its own, a validator has exactly the issues of that tree, whatever it validated before; clearing leaves none, and lists of issues that it handed out earlier stay as they were. Parsing and validating in one go gives the tree and the issues that doing both separately gives, an error result exactly when some issue is an error, and no result object exactly when there is no issue.',
  over=['histories'], text='all histories of validations, clearings and combined parses', why='tests use a validator once', files=['validator/validator.go'],
  mech=mech(('validation', 'validator/validator.go Validate'), ('combined', 'validator/validator.go NewParserValidator')), observe=['Issues, Result']),
 dict(id='C25', title='The parse command reports and exits as documented',
  statement='The parse command exits with status zero exactly when the file was read, parsed and validated without an error; it prints the tree in PN (or JSON on request, with an issues key exactly when there were issues) unless asked only to validate, and reports issues and failures on standard error. File name suffix and options select the language, the validator and the strictness.',
  over=['inputs', 'configurations'], text='all files x all options', why='the command has no tests', files=['parse/parser.go'],
  mech=mech(('command', 'parse/parser.go main'),), observe=['exit status, standard output, standard error']),
 dict(id='C26', title='Layout between tokens does not change what a program means',
  statement='Replacing white space or a comment between two tokens by other white space or comments of the same kind (with or without a line end) never changes whether a program is accepted, nor its tree.',
  over=['programs'], text='all programs x all layouts', why='tests use one layout for each program', files=[L],
  mech=mech(('skipping of white space and comments', L + ' skipWhite'),), observe=['the syntax tree']),
 dict(id='C27', title='Line and column follow from the offset alone',
  statement='For every text and every offset in it, the line is one more than the number of line feeds before the offset and the column one more than the number of characters since the last of them, in whatever order offsets are asked for.',
  over=['inputs', 'histories'], text='all texts, all offsets, all orders of asking', why='tests check positions in ASCII sources', files=[X],
  mech=mech(('locator', X + ' Locator'),), observe=['LineForOffset, PosOnLine']),
 dict(id='C28', title='Observing a tree never changes it',
  statement='Traversing, printing, converting, validating or extracting literals from a tree, any number of times and in any order, leaves the tree as it was and gives the same answer every time, also when several users observe distinct trees, or the same tree, at the same time.',
  over=['histories', 'programs'], text='all trees x all sequences of observations', why='tests observe every tree once', files=[X, 'validator/validator.go', N],
  mech=mech(('immutable nodes', X),), observe=['all observations, before and after']),
 dict(id='C29', title='Every node of a tree says what it is',
  statement='Every node tells its kind: its label, the categories it belongs to (definition, named definition, literal, number, binary, unary, call, query, resource, boolean, no operation) and those only, its name where it has one, and its value where it is a literal, a whole number as a float and a float as a whole number included. Looking up a key in a hash gives the value of the first entry with that key as a string or a name, and nothing for other keys. A copy of a type reference with another name, or of a call with another function, differs in that only and leaves the original as it was.',
  over=['programs'], text='all nodes of all trees', why='tests look at trees in PN only, which shows neither labels, categories, values nor lookups', files=[X, 'parser/label.go'],
  mech=mech(('labels', 'parser/label.go'), ('categories and values', X)), observe=['Label(), the interfaces a node implements, Name(), Value(), Int(), Float(), LiteralHash.Get, WithName, WithFunctor']),
 dict(id='C30', title='PN values compose',
  statement='Whatever is built from the constructors of PN - literals of every type, lists, maps, calls, and what exists already made a named argument, a parameter list or the value of a key - has exactly the text, the data and the JSON that follow from its parts, and building leaves the parts as they were. A map is refused when a key is not a name. Floats have sixteen digits in text and are told from whole numbers; strings are escaped so that control characters, quotes and backslashes can be told apart.',
  over=['histories', 'inputs'], text='all sequences of constructions with all values', why='tests print a dozen values; shared parts and escapes combine', files=[N],
  mech=mech(('constructors and notation', N),), observe=['Format, ToData, JSON of every value after every construction']),
 dict(id='C31', title='Severities and validators are their owner\'s to set',
  statement='A validator reports every issue that it finds with the severity that its owner last gave to issues of that code, or else the one that it was born with, and leaves out those with severity ignore; what it reported before stays as it was, and other validators are not affected. Only issues that can be demoted (duplicate key, future reserved word, expression without effect that is not last) take another severity, and only one that exists; everything else is refused and changes nothing. Strictness is told by its name in any case. A validator that a user makes from the abstract one is given every node once, the root first and parents before children, can ask what that node and all around it is contained in, and has reported what it accepted.',
  over=['histories', 'programs'], text='all sequences of making, demoting and using validators, all programs', why='tests use validators as they come; none demotes, none makes its own', files=['validator/validator.go', 'validator/checker.go', 'validator/issues.go'],
  mech=mech(('severities', 'validator/validator.go Demote, Accept'), ('containers', 'validator/validator.go Container, ContainerOf')), observe=['Issues() after Validate, panics of Demote and Strict, Container(), ContainerOf()']),
 dict(id='C32', title='Trees put together by hand are as good as parsed ones',
  statement='A tree that a user puts together with the factory of the parser, from nodes of the right kinds, has exactly the parts and attributes that it was given, where they were given: also such trees as no source has, and trees that share nodes. Its positions, text, traversals, PN, JSON, literal values, descriptions and the issues that each validator finds follow from that in the same way as for parsed trees, and making a node leaves the nodes that it is made of as they were.',
  over=['histories', 'programs'], text='all trees of nodes of the right kinds, over all sources', why='tests use the factory through the parser only, so that parts and attributes come in the combinations that a few sources have', files=['parser/factory.go', X],
  mech=mech(('factory', 'parser/factory.go'), ('accessors', X)), observe=['accessors of all nodes, all observations of trees']),
 dict(id='C33', title='Readers and lexers can be moved about',
  statement='A reader gives the character at its position, with where it is or how long it is, refuses what is no character or NUL, says when the text is over, and gives the text since an earlier position; peeking, asking and refusing leave it where it was. A lexer reads the same tokens from a place that it is told to move to as when it comes there by reading with the same token before; it tells what the current token is and that it is where it is, and refuses another token than the current one, as expected and actual, at the start of the current token, from which it goes on.',
  over=['histories', 'inputs'], text='all texts, all sequences of reading, moving and asking', why='tests read tokens once, in order, and never move', files=['parser/reader.go', P, L],
  mech=mech(('reader', 'parser/reader.go'), ('plain lexer', P + ' NewSimpleLexer, SetPos, AssertToken')), observe=['StringReader, Lexer']),
]

TECHNIQUE = {
 '': 'executable TLA+ specification of the language; observations of the real parser on enumerated, random and mutated sources validated by TLC, suites of validated observations replayed',
}
NOTE = {
 '': 'Every observation is compared with what the TLA+ specification says for that source; sources are enumerated (all token sequences up to a length), derived at random from a grammar, mutated, or taken from suites that TLC has validated.',
}

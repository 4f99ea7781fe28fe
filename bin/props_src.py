import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
TK="src/tokens/tokens.rs"; FM="src/fmt/formatter.rs"
p("C01","A token stream keeps its structural guarantees under every construction",
 "After any sequence of building operations (text, space, push, line, indent, unindent, quotes, references and registrations of imports, appending of other streams), iterating the stream yields every non-whitespace item that was added, once and in order. Between them there are never two consecutive spaces, two consecutive pushes or two consecutive lines, a line is never directly followed by a push, no whitespace directly precedes a change of indentation, and changes of indentation are merged so that they are never adjacent and never zero. What remains between two items asks for the strongest break that was requested there after any change of indentation. All ways of iterating a stream yield the same items and announce correctly how many remain, a stream equals a list of items exactly if that list is what it yields, and two streams are equal, and then compare and hash alike, exactly if they yield the same items, no matter how their texts are kept.",
 ["histories"],"for every finite sequence of stream operations on an initially empty stream, at every step of it",
 "The unit tests and doc tests build a few dozen fixed streams; the normalisation depends on the whole whitespace suffix at the moment of each operation, and the number of suffix/operation combinations is unbounded.",
 [TK,"src/tokens/format_into.rs","src/tokens/item.rs"],[("whitespace normalisation on push/line/space/indentation",TK),("per-item re-normalisation when extending",TK)],
 ["Tokens::iter","Tokens == Vec<Item>"],[("items","the normalised stream",TK)])
p("C02","Rendering keeps all text and separates it exactly as requested",
 "Rendering a stream outputs exactly its text, in order, and consecutive pieces of text are separated by what was requested between them: nothing, a space, one line break, or a line break plus exactly one blank line, where a break supersedes spaces requested before it, a blank line supersedes other breaks, and a change of indentation breaks the line and supersedes every request made before it. The output never starts with a blank line or a line break, never has whitespace added at the end of a line, and whitespace which is not followed by any text renders nothing, and registering an import renders nothing.",
 ["histories","inputs"],"for every stream of text, whitespace, indentation and registrations, rendered in one piece or in several consecutive pieces through the same formatter",
 "Tests render a few fixed snippets; the pending-whitespace state of the formatter is reached through sequences of whitespace requests which are never enumerated (a leaked leading space after an ignored break went unnoticed).",
 [FM,TK],[("pending whitespace is realised before the next text",FM)],["Tokens::to_string","Tokens::to_vec","Tokens::format"],
 [("line/spaces","pending break and spaces",FM)])
p("C03","Indentation depth and units are exact at every depth and configuration",
 "Every rendered line that has text starts with exactly as many indentation units as indents minus unindents preceding it in the stream, but never less than zero, where a unit is the configured number of spaces or one tab; indentation below zero is remembered and has to be countered before lines are indented again. Indentation is never written anywhere else than at the start of a line. Changing the configured indentation or newline only changes the unit and the line terminator, nothing else in the output.",
 ["histories","configurations"],"for every sequence of indents, unindents and text, at any depth (far beyond the sizes of internal buffers), and every indentation and newline configuration",
 "Tests go at most three levels deep with four spaces; no test uses tabs, wide units, large depths or returns from below zero through several levels.",
 [FM,"src/fmt/config.rs",TK],[("indentation written in chunks from fixed buffers",FM),("level clamped at zero",FM)],["Tokens::format with fmt::Config","Tokens::to_string"])
p("C04","Composing streams is the same as building them in place",
 "Appending a value has the same effect on the rendered text, the imports found and all later operations as performing its operations directly on the receiving stream, no matter if the value is a stream by value or by reference, an optional, a vector, slice or copy-on-write list, an item, a closure, a quoted fragment, a tuple of registrations, or is collected or extended from the items of other streams, and no matter how deeply these are nested. Strings of every supported kind, numbers of every width and displayable values contribute exactly their textual form; an absent or empty value has no effect.",
 ["programs","inputs"],"for every tree of fragments and every way of appending each of them to every prefix stream",
 "Each conversion has at most one example in the documentation, always appended to an empty or trivially ending stream, so normalisation and import bookkeeping across the seam are not exercised.",
 ["src/tokens/format_into.rs",TK,"src/tokens/from_fn.rs","src/tokens/display.rs","src/tokens/item_str.rs","src/tokens/quoted.rs","src/tokens/register.rs"],[("FormatInto conversions","src/tokens/format_into.rs"),("extend re-adds every item",TK)],
 ["Tokens::append","Tokens::extend","FromIterator","Tokens::to_string","Tokens::walk_imports"])
p("C05","Every import used or registered anywhere in a stream is found, once each",
 "Walking the imports of a stream visits every language item that was referenced or registered in it, exactly as many times as it was added, no matter in which order and how deeply the fragments containing them were composed, cloned, collected or placed inside of strings, and terminates. A registration makes an import known without rendering anything.",
 ["histories","programs"],"for every history of references, registrations, and compositions of streams containing them",
 "One unit test walks two imports in one stream; the linked positions have to be rebuilt on every composition, which only shows for particular nestings.",
 [TK,"src/tokens/register.rs","src/tokens/internal.rs","src/macros.rs"],[("linked list of language items through positions",TK),("relinking in item()",TK)],
 ["Tokens::walk_imports","Tokens::to_file_string"],[("last_lang_item","position of the most recent language item",TK)])
p("C06","Quoted code keeps the spacing, line and indentation structure of its source",
 "For code in a quoting macro, tokens which are adjacent in the source stay adjacent, tokens separated on a row are separated by one space, rows are separated by one line break, rows with blank lines between them by one blank line, and a row is nested one level below the closest preceding row that starts further to the left. This is independent of the absolute position of the macro, of the number of columns or blank lines used, of the width of tokens and of how groups, interpolations or control flow are spread over rows.",
 ["programs"],"for every arrangement of tokens, groups, strings, interpolations and escapes on rows and columns that is accepted",
 "Tests contain some tens of hand-written layouts using four-column steps; the decision depends on the complete stack of columns of preceding rows and on each gap, which is combinatorial.",
 ["genco-macros/src/encoder.rs","genco-macros/src/quote.rs","genco-macros/src/cursor.rs","genco-macros/src/fake.rs"],[("whitespace from line and column differences","genco-macros/src/encoder.rs"),("stack of indentation columns","genco-macros/src/encoder.rs")],
 ["quote!","quote_in!","quote_fn!"],[("indents/last_start_column","columns of the enclosing rows","genco-macros/src/encoder.rs")])
p("C07","Mismatched indentation is a compile error and accepted code is balanced",
 "A quoting macro rejects at compile time exactly those layouts in which a row starts to the left of the preceding row at a column that does not match the start of any enclosing row, reporting by how many columns it is off. For every accepted layout all indentation introduced by the macro is undone at its end, so code appended afterwards continues at the level the macro started at.",
 ["programs"],"for every arrangement of rows and columns inside of a quoting macro, including nested bodies of control flow",
 "There is a single compile_fail example; a layout wrongly accepted or rejected, or an unbalanced end, needs particular column sequences.",
 ["genco-macros/src/encoder.rs"],[("matching against known columns","genco-macros/src/encoder.rs"),("unrolling of indentation at the end","genco-macros/src/encoder.rs")],["compiler diagnostics of quote!","rendering of code appended after quote!"])
p("C08","Interpolation and control flow in quotes evaluate like the code they denote",
 "Interpolated variables and expressions contribute exactly their tokens where they occur, loops contribute their body once per element in iteration order with the separator between consecutive elements only, conditionals and matches contribute exactly the body of the branch that would be taken (including guards, patterns, and nothing if no branch is taken), scopes run their code at that point, and bindings are visible to what follows. Every expression, the target of `quote_in!` included, is evaluated exactly once per time it is reached, in source order, and escapes produce the escaped character.",
 ["programs","inputs"],"for every nesting of interpolations, loops with and without separator, conditionals, matches, scopes and bindings, over all collection sizes and conditions",
 "Tests have one or two instances of each construct; nesting, empty and single-element loops inside of others, separators with whitespace and guards are not combined.",
 ["genco-macros/src/quote.rs","genco-macros/src/encoder.rs","genco-macros/src/ast.rs","genco-macros/src/quote_fn.rs","genco-macros/src/quote_in.rs","genco-macros/src/static_buffer.rs"],[("code generation for each construct","genco-macros/src/encoder.rs"),("static text buffer flushed before dynamic code","genco-macros/src/static_buffer.rs")],["quote!","quote_in!","quote_fn!"])
p("C09","Quoted strings denote the original text in the target language",
 "For every text, the quoted string literal produced for C, C#, Dart, Go, Java, JavaScript, Nix, Python, Rust and Swift is a single well-formed string literal on one line of that language, and denotes exactly the original text under the lexical rules of that language. This holds no matter which characters are adjacent and whether the text is added in one or several pieces.",
 ["inputs"],"for every sequence of Unicode scalar values and every target language",
 "Tests quote one sample string per language; wrong escapes for form feed, vertical tab, bell, quotes and greedy escapes were present without any test noticing.",
 ["src/lang/mod.rs","src/lang/c.rs","src/lang/csharp/mod.rs","src/lang/dart/mod.rs","src/lang/java/mod.rs","src/lang/js.rs","src/lang/nix.rs","src/lang/python.rs","src/lang/rust.rs","src/lang/swift.rs","src/lang/go.rs"],
 [("write_quoted of each language","src/lang"),("c_family_write_quoted","src/lang/mod.rs")],["quoted()","string literals in quote!"])
p("C10","Interpolated strings denote their text and evaluate their expressions",
 "A string built from text, constants, nested quoted strings and evaluated expressions is one string literal of the target language whose text parts denote the given text, in order with spaces exactly as in the source, and whose evaluated parts are delimited such that the target language evaluates exactly the given expression at that point, including expressions which themselves contain strings with expressions. A string nested in the text of another contributes its text in quotation marks, a string without evaluated parts is an ordinary string literal, and languages without evaluation reject evaluated parts at compile time.",
 ["programs","inputs"],"for every sequence and nesting of text, constants, identifiers and expressions, in JavaScript and Dart with evaluation and in all languages without",
 "A handful of tests with one or two parts; delimiting depends on what the expression consists of, on neighbouring text and on nesting depth.",
 ["genco-macros/src/string_parser.rs",FM,"src/lang/js.rs","src/lang/dart/mod.rs","genco-macros/src/requirements.rs"],[("string parser with column based whitespace","genco-macros/src/string_parser.rs"),("quote and eval frames in the formatter",FM)],["quote!($[str](...))","Tokens::to_string"])
p("C11","Ill-nested quotes are reported as errors and well-nested ones always render",
 "Formatting returns an error, and does not panic, loop or silently produce output, for every stream in which a string or an evaluation is closed without being open, an evaluation is closed while a string inside of it is open, an evaluation starts outside of a string, an evaluated string starts directly inside of the text of another string, or anything is evaluated inside of a string which is nested in the text of another string. Every stream in which strings and evaluations are properly nested, to any depth, formats successfully.",
 ["histories"],"for every sequence of text, whitespace, import references and opening and closing of strings and evaluations",
 "No test formats an ill-nested stream, and well-nested ones go at most two levels deep.",
 [FM,"src/fmt/cursor.rs"],[("frames of quotes and evaluations",FM),("buffering of nested quotes",FM)],["Tokens::to_string","Tokens::format"])
p("C12","Java and C# type references always denote the imported type",
 "In every generated Java or C# file, each reference to an imported type resolves, under the rules of the language, to exactly the type it was created for: it is written with its simple name only if that name denotes this type in the file, considering the imports, the package or namespace of the file, implicitly visible packages and other types with the same name, and fully qualified otherwise. No two imports introduce the same simple name, and types of the package or namespace of the file or of java.lang are not imported. Rendered without a preamble, Java types are written fully qualified unless they are in java.lang or the package of the configuration.",
 ["inputs","configurations"],"for every set of referenced and registered types with any coincidence of names, and every file package or namespace",
 "One test per language with a single collision; shadowing by same-package, java.lang or several imported namespaces went unnoticed.",
 ["src/lang/java/mod.rs","src/lang/csharp/mod.rs"],[("map of imported names consulted when formatting references","src/lang/java/mod.rs"),("imported namespaces","src/lang/csharp/mod.rs")],["Tokens::to_file_string","Tokens::format_file"])
p("C13","Module imports: preambles declare exactly what the file uses",
 "In every generated Rust, Python, JavaScript, Dart, Go, Swift and C file, each import reference is written in a form which the import declarations at the top of the file bring into scope from the module it was created for, respecting aliases, qualification, default and wildcard imports, implicit modules, system includes, module paths relative to the file, and configuration. Every declaration is well-formed, occurs once, and is needed by some referenced or registered import; without imports there are no declarations. Rendered without a preamble, references are written the same way.",
 ["inputs","configurations"],"for every multiset of imports with any combination of modifiers sharing modules, names and aliases",
 "Documentation examples show each modifier once in isolation; grouping of several imports of one module with different modifiers is not covered.",
 ["src/lang/rust.rs","src/lang/python.rs","src/lang/js.rs","src/lang/dart/mod.rs","src/lang/go.rs","src/lang/swift.rs","src/lang/c.rs"],[("import collection and grouping of each language","src/lang")],["Tokens::to_file_string","Tokens::format_file"])
p("C14","Preambles depend only on the set of imports",
 "Two streams containing the same set of imports produce the same preamble, byte for byte, no matter in which order, how often, through references or registrations, or through which fragments the imports were added, and repeated rendering of the same stream always produces the same output.",
 ["histories"],"for every permutation, repetition and regrouping of the imports of a stream, in every language",
 "Tests render one order only; dependence on the order of traversal shows only by comparing permutations.",
 ["src/lang",TK],[("ordered sets of imports","src/lang")],["Tokens::to_file_string"])
p("C15","Nix preambles declare every name the file uses",
 "In every generated Nix file each referenced argument, inherited name, variable and name from an attribute set is declared: by the function arguments, a with, or an entry of the let block, transitively including everything used inside the values of variables. Declarations occur once, and function arguments are exactly the roots of what is used, and are left out if the file is configured as scoped.",
 ["inputs","configurations"],"for every nesting of variables whose values use arguments, inherits, withs and other variables",
 "There is no test for Nix apart from an example that is only compiled.",
 ["src/lang/nix.rs"],[("collection of arguments, withs, inherits and variables","src/lang/nix.rs")],["Tokens::to_file_string","Tokens::format_file"])
p("C16","A generated file is its preamble, one blank line and its body",
 "For every language and configuration, a generated file consists of the declarations implied by the configuration (package, namespace, function arguments), then the import declarations, then the rendered body, separated by exactly one blank line from each other where both exist, and ends with exactly one line terminator. The body is the same text that rendering the stream alone produces apart from how imported names are written; leading whitespace requests of the body do not change the separation from the declarations, and a namespace block indents its body by one level and closes it.",
 ["inputs","configurations"],"for every body (including empty and whitespace-only ones), every set of imports and every language configuration",
 "Documentation examples show non-empty bodies with simple imports; combinations of empty header, empty body, leading and trailing whitespace and configuration are not covered.",
 ["src/lang",TK,FM],[("header and body formatted through the same formatter","src/lang"),("trailing line",FM)],["Tokens::format_file","Tokens::to_file_string","Tokens::to_file_vec"])
p("C17","All outputs are equivalent and failing outputs are reported",
 "Rendering to a string, to an I/O stream and to a list of lines produces the same text for every stream and configuration, and the convenience methods produce the same as formatting with the default configuration. An I/O stream which accepts data in pieces or interrupts receives the same bytes, and if it fails at any point formatting returns an error and the stream has received exactly a prefix of the output up to that point.",
 ["fault_sequences","inputs"],"for every stream, every split of writes into partial writes and interruptions, and every point of failure",
 "No test uses the I/O writer with anything else than a vector, and no test injects a fault.",
 ["src/fmt/fmt_writer.rs","src/fmt/io_writer.rs","src/fmt/vec_writer.rs",TK,FM],[("writers","src/fmt"),("error propagation",FM)],["fmt::FmtWriter","fmt::IoWriter","fmt::VecWriter","Tokens::to_string","Tokens::to_vec","Tokens::to_file_string","Tokens::to_file_vec"])
p("C18","Comment helpers produce one complete comment line per given line",
 "The comment helpers for Java, C# and Dart start on a line of their own and produce exactly one comment line per given line, in order, each carrying the comment marker at the current indentation, so that all given text ends up inside of the comment; block comments are opened and closed exactly once. Without any lines nothing is produced, and the comment never joins with a preceding comment or code.",
 ["inputs","histories"],"for every list of single-line texts (not containing a comment terminator), at every position of a stream and at every indentation",
 "One documentation example per helper, always at the top level.",
 ["src/lang/java/block_comment.rs","src/lang/csharp/block_comment.rs","src/lang/csharp/comment.rs","src/lang/dart/doc_comment.rs"],[("format_into of comment helpers","src/lang")],["java::block_comment","csharp::comment","csharp::block_comment","dart::doc_comment"])
p("C19","Every use of `$` in a quote has its documented meaning or is a compile error",
 "Within a quote a `$` which is followed by another `$`, a name, parentheses or brackets begins one of the documented forms (`$$`, `$name`, `$(expr)`, `$(if ..)`, `$(for ..)`, `$(match ..)`, `$(let ..)`, `$(ref ..)`, `$[' ']`, `$['\\r']`, `$['\\n']`, `$[str](..)`, and in strings only `$$`, `$name`, `$(..)` and `$[const](..)`) and has the meaning documented for it. Anything that begins like one of these forms but is not complete and well formed (unknown names or control characters, missing or unexpected arguments, tokens left over behind a complete form, constructs that end early) is reported as a compile error without the macro panicking; it is never silently dropped, rewritten or put into the output as text. All tokens that are not part of such a form are kept as text.",
 ["inputs"],"for every sequence of tokens and groups at every place of a quote",
 "Tests cover well-formed uses only; none passes an ill-formed or truncated construct to the macros, and whether leftover tokens are noticed depends on each parser.",
 ["genco-macros/src/quote.rs","genco-macros/src/string_parser.rs","genco-macros/src/quote_in.rs","genco-macros/src/quote_fn.rs"],[("parsing of interpolations, control flow and escapes","genco-macros/src/quote.rs"),("parsing of the contents of strings","genco-macros/src/string_parser.rs")],["quote!","quote_in!","quote_fn!"])
p("C20","Languages defined by users are called for exactly what a stream contains",
 "For every language defined with `impl_lang!`, formatting calls the functions of the language properly nested, exactly once and in stream order for every string which is opened or closed (told whether it is evaluated), every text in a string, every evaluation (of a single literal as such), and every reference, always with the configuration and format state which formatting was started with, and what they write ends up at that point of the output. Functions which are not defined behave as documented, several types of items are told apart, and what a file consists of is up to the language. If one of these functions fails, formatting reports an error, what was written is a prefix of the output, and no other function is called.",
 ["inputs","fault_sequences"],"for every language, stream, configuration and format state, and every call which fails",
 "The tests define one language without configuration, format state or strings of its own, and no function of a language ever fails.",
 ["src/lang/mod.rs","src/macros.rs",FM,TK],[("calls of the functions of a language",FM),("defaults","src/lang/mod.rs"),("impl_lang!","src/macros.rs")],["impl_lang!","lang::Lang","lang::LangItem","Tokens::format","Tokens::format_file"])
p("C21","Quotes keep their meaning on compilers without line information",
 "With the stable compiler, which tells genco where tokens are but not in which line, a quote means the same as with nightly except that rows are not told apart: whatever whitespace is between two elements in the source, line breaks, blank lines and indentation included, is exactly one space, and elements without anything between them stay adjacent. This is independent of how many bytes the characters take. No quote is rejected because of its layout. Interpolation, control flow, strings and the explicit `$[' ']`, `$['\\r']` and `$['\\n']` work as they do with nightly.",
 ["programs","inputs"],"for every quote, layout and context",
 "All tests of whitespace are disabled or written for nightly, nothing tests what the stable compiler makes of quotes.",
 ["genco-macros/src/fake.rs","genco-macros/src/encoder.rs","genco-macros/src/cursor.rs","genco-macros/src/quote.rs"],[("positions of tokens without line information","genco-macros/src/fake.rs"),("whitespace between elements","genco-macros/src/encoder.rs")],["quote!","quote_in!","quote_fn!"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import sys
for x in P:
    n=x['statement'].count('. ')+1
    print(x['id'],n,len(x['statement']))

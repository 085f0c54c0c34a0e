"""Writes /verif/properties.jsonl (single source: the list below)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None,
                               **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

PAR = 'ts2pythonParser.py'; EB = 'ts2python.ebnf'
JV = 'ts2python/json_validation.py'; TS = 'ts2python/typeddict_shim.py'; SD = 'ts2python/singledispatch_shim.py'

p('C01', 'Accepted data definitions always transpile to Python that runs',
  'For every TypeScript document made of data definitions (interfaces, type aliases, enums, constant namespaces, constants, imports) that is transpiled without reported errors, and for every supported combination of options, the generated module compiles and executes without raising. After execution every declared name is defined in it, and every annotation of every generated class can be resolved.',
  ['programs', 'configurations'], 'all Tier-1 documents x all option combinations',
  'Tests compile a few dozen fixed snippets, mostly under the default configuration, and many of them only look at the text; interactions of constructs, names and options are not reached.',
  [PAR, EB], [('class rendering', PAR + ':on_interface/render_declarations'), ('forward-reference quoting', PAR + ':compile_type_expression'), ('import preambles', PAR + ':GENERAL_IMPORTS, TYPEDDICT_IMPORTS*, FUNCTOOLS_IMPORTS')],
  ['exec of the text returned by compile_src', 'typing.get_type_hints of every generated class'])
p('C02', 'Every interface becomes a record class with exactly its fields',
  'For every interface in an accepted document the generated module has a class of that name (Python keywords get a trailing underscore) whose own fields are exactly the declared fields, in order, and which inherits the fields of all interfaces it extends and nothing else. A field is optional in the class if it was declared optional, and a field declared neither optional nor nullable is required; no field is lost, invented, renamed, or given to another class.',
  ['programs', 'configurations'], 'all interface declarations (field names, modifiers, separators, inheritance graphs, nesting) x options',
  'The tests assert a handful of rendered snippets; field names, modifiers, separators and inheritance combine without bound.',
  [PAR, EB, TS], [('field rendering', PAR + ':on_declaration/on_declarations_block'), ('inheritance', PAR + ':bases/render_class_header'), ('required/optional bookkeeping', TS + ':_new_typed_dict')],
  ['__annotations__, __required_keys__, __optional_keys__ and bases of the executed classes'])
p('C03', 'Field types keep their meaning according to the documented mapping',
  'For every field, alias and constant in an accepted document, the resolved Python annotation denotes the declared type under the documented mapping: primitives, arrays, tuples, index signatures, unions, literals, references and parenthesised or nested combinations of these, with no union alternative lost, invented or moved. Constructs the tool does not support (intersections and indexed access types) become Any and a warning is reported.',
  ['programs', 'configurations'], 'all type expressions of the supported subset to any nesting depth x options',
  'Tests check individual examples of each construct; the composition of constructs is unbounded.',
  [PAR, EB], [('type compilation', PAR + ':on_types/on_type/render_union/on_array_of/on_type_tuple/on_map_signature'), ('name substitution', PAR + ':TYPE_NAME_SUBSTITUTION')],
  ['typing.get_type_hints of the executed classes, module attributes for aliases'])
p('C04', 'Enums and constant namespaces keep their members and values',
  'Every enum and every namespace that consists of constant definitions becomes a Python enumeration with the same member names in the same order and exactly the declared literal values, an integer enumeration if all values are integers and a plain one otherwise. Members without values get pairwise distinct values, top-level constants keep their literal values, and switching enums off changes only the container, not names and values.',
  ['programs', 'configurations'], 'all enums, constant namespaces and constants with string, integer, float, boolean or missing values',
  'Tests contain a few enums, check mostly text, and never execute an enum without values.',
  [PAR, EB], [('enum rendering', PAR + ':on_enum/on_item'), ('constant namespaces', PAR + ':on_virtual_enum/on_const'), ('literals', PAR + ':on_integer/on_number/on_string/on_boolean/on_array/on_object')],
  ['__members__ of the executed enum classes', 'module attributes'])
p('C05', 'Anonymous interfaces keep their own structure in every rendering',
  'Each anonymous interface in a document (as field type, in unions, arrays, tuples, index signatures, aliases, nested to any depth) is rendered as its own record type with exactly its fields, and two different anonymous interfaces never end up as the same type. The local, toplevel and functional renderings of one document denote the same structure.',
  ['programs', 'configurations'], 'documents with nested anonymous interfaces x rendering options',
  'Tests look at few nestings and only at text; name clashes need particular combinations of names and positions.',
  [PAR], [('anonymous class naming', PAR + ':on_types/obj_name'), ('rendering modes', PAR + ':render_declarations/render_local_classes')],
  ['field types of the executed classes followed into the anonymous classes'],
  [('obj_name, local_classes', 'stack of names and of classes yet to be rendered', PAR + ':ts2pythonCompiler')])
p('C06', 'Version and PEP options change the notation, not the meaning',
  'For a fixed document, transpiling with any combination of the type-union, literal, not-required and variadic-generics options yields modules that denote the same classes, fields, required/optional division and field types, up to the documented differences (literals widened to their base type without the literal option; optional fields also admitting None without the not-required option). With an option on, the newer notation is used wherever it applies; with it off, it is never used.',
  ['programs', 'configurations'], 'all documents x all subsets of the compatibility options',
  'The compatibility tests contain one or two snippets per version and mostly only require that they parse.',
  [PAR], [('option handling', PAR + ':reset/render_union/on_declaration/render_class_header')],
  ['structure of the executed modules', 'syntax tree of the generated code'])
p('C07', 'Configured base class and decorator apply to every record class',
  'With a configured base class (plain or dotted name, or none) every record class generated for an interface or anonymous interface has that base, directly or through the interfaces it extends, and keeps its fields; a dotted name is imported. With a configured decorator every such class carries it exactly once and nothing else in the output changes.',
  ['programs', 'configurations'], 'all documents x base class names x decorators x rendering modes',
  'No test executes output with a decorator or a non-default base class over nested or anonymous interfaces.',
  [PAR], [('class header', PAR + ':render_class_header/reset')], ['__mro__ of the executed classes', 'calls recorded by a decorator supplied by the harness'])
p('C08', 'Layout, comments and optional punctuation do not change the result',
  'Two documents that differ only in whitespace, line breaks, comments, optional separators and terminators (those between and after fields, after interfaces, index signatures and the last enum member), or in export/declare/readonly modifiers are both accepted or both rejected, and generate the same definitions.',
  ['inputs', 'programs'], 'all layout and comment variants of all documents',
  'Tests use one layout per snippet.',
  [EB, PAR], [('insignificant whitespace and comments', EB + ':@whitespace, @comment'), ('dropping comments', PAR + ':ts2python_AST_transformation_table')],
  ['text between the begin/end markers of the generated code, and executed structure'])
p('C09', 'Order of declarations is immaterial for references',
  'For every document and every permutation of its declarations that keeps an interface behind the interfaces it extends, the generated module runs and denotes the same definitions: forward, backward, mutual and self references from fields, aliases, arrays, unions, tuples and index signatures all resolve to the declared type.',
  ['programs'], 'all permutations of all documents',
  'Tests have a few forward references in fixed orders.',
  [PAR], [('known types and quoting', PAR + ':compile_type_expression/add_to_known_types/is_known_type')],
  ['resolved annotations of the executed module'],
  [('known_types', 'stack of the names defined so far', PAR + ':ts2pythonCompiler')])
p('C10', 'Transpiling depends only on source and configuration',
  'The generated code (apart from its timestamp) and the reported errors are a function of source text and configuration alone: they do not depend on which documents were transpiled before with whatever outcome and options, on repetition, or on transpilations running concurrently in other threads.',
  ['histories', 'schedules', 'configurations'], 'all sequences of transpilations with changing options and failing sources, all assignments to threads',
  'Tests compile each snippet in isolation and never compare repeated, interleaved or concurrent runs.',
  [PAR], [('per-document reset', PAR + ':reset'), ('thread-local factories', PAR + ':parsing, ASTTransformation, compiling'), ('cached base classes', PAR + ':bases')],
  ['(code, errors) of compile_src in histories against a fresh process'])
p('C11', 'Any text is answered with a result or errors, never a crash',
  'For every input text, however malformed, and every configuration, transpiling terminates and returns a result together with a list of errors, each with a position inside the text, instead of raising an exception. If no error is reported the result is Python source text that compiles whenever the input consists of data definitions only.',
  ['inputs', 'configurations'], 'all texts: valid documents, mutated ones, token soup, arbitrary unicode',
  'Tests feed valid snippets and a handful of failing ones to single grammar rules.',
  [PAR, EB], [('error handling of the pipeline', PAR + ':compile_src'), ('resume rules', EB + ':@..._resume'), ('zombie nodes', PAR + ':on_ZOMBIE__')],
  ['return value of compile_src, error positions'])
p('C12', 'Malformed declarations are always reported, where they are',
  'A document into which a syntax error is introduced is never silently accepted: a syntax error is reported, the first one not before the damaged declaration and not after the exported declaration that follows (after an unclosed namespace: not after the end). As long as no bracket is left open, undamaged exported declarations are not reported as erroneous, and outside of namespaces several exported declarations that are damaged behind their name are each reported.',
  ['inputs', 'programs'], 'all documents x damaging edits x positions',
  'The failing examples in the tests are single expressions; no test looks at positions or at the consequences for the rest of a document.',
  [EB, PAR], [('mandatory markers and resume points', EB + ':§, @..._resume')], ['positions of the errors returned by compile_src'])
p('C13', 'Preserving comments keeps every multi-line comment and no more',
  'With comment preservation switched on, a document with comments between declarations and between fields generates the same definitions as with it switched off, and every word of every such comment that ends with a line break reappears, in order, in Python comments (save for anonymous interfaces that are written in functional notation). With it switched off no source comment appears in the output.',
  ['programs', 'inputs'], 'all documents x comment styles x positions x comment contents',
  'Tests contain three commented snippets.',
  [PAR], [('comment nodes', PAR + ':on_comment__, ts2python_AST_transformation_table'), ('comment positions', PAR + ':on_declarations_block/on_type_alias/on_document')],
  ['comment tokens and syntax tree of the generated code'])
p('C14', 'File processing writes exactly the transpilation, and skips only if current',
  'After processing a source file, the result file contains what transpiling the current source under the current configuration yields, and errors or warnings are in the returned report file and only there; a result file is left untouched only if neither source nor configuration nor the transpiler has changed since it was written. This holds after any history of edits, configuration changes, processing runs, and deletions or manual changes of result files.',
  ['histories', 'configurations'], 'all sequences of edit, configure, process, delete, tamper steps',
  'There is no test of file processing at all.',
  [PAR], [('up-to-date check', PAR + ':process_file, source_hash, dump_configuration'), ('embedded hash', PAR + ':finalize')],
  ['files after process_file, its return value'])
p('C15', 'An interrupted or failing write is never taken for a current result',
  'If writing a result is interrupted or fails at any point (crash, full disk, missing permission), then after the cause is gone the next processing run leaves a complete, correct result file, and the report it returns contains just the errors and warnings of the current source; a truncated result is never regarded as up to date, and no errors or warnings are lost. The source file is never modified.',
  ['crash_points', 'fault_sequences'], 'every write, open, close and rename during processing x kind of failure x previous state of the files',
  'No test injects faults or looks at partially written files.',
  [PAR], [('result writing', PAR + ':process_file')], ['result and report after a faulted run followed by a clean run'])
p('C16', 'Batch and command line give the same results as the library',
  'Processing many files in one batch, serially or in parallel, produces for each file the result it gets on its own, names reports for exactly the files with problems, and one bad file does not affect the others. The command line maps its documented options, and the settings in its configuration file that these do not override, to the corresponding configuration, so that its output equals that of the library with that configuration, and it exits with failure iff it rejects its arguments or a batch has errors.',
  ['inputs', 'configurations', 'schedules'], 'all sets of files x option combinations x serial/parallel',
  'No test runs a batch or the command line.',
  [PAR], [('batch', PAR + ':batch_process'), ('options', PAR + ':main')], ['files written by batch_process and by the script run as a subprocess'])
p('C17', 'A value validates against a type iff it conforms to it',
  'For every type expression (primitives, Any, None, literals, enums, lists, dictionaries, tuples, unions, optional types, record types, nested to any depth) and every JSON-like value, validation returns silently if the value conforms to the type and raises a TypeError or ValueError if it does not, and it never raises anything else.',
  ['inputs'], 'all pairs of type expression and value, conforming and nearly conforming',
  'Tests validate a dozen fixed values; wrong acceptance or rejection depends on combinations of type constructors and on where in a value the defect lies.',
  [JV], [('validation', JV + ':validate_type/validate_compound_type/validate_uniform_sequence')], ['outcome of validate_type against an independent conformance predicate'])
p('C18', 'Record validation checks every key and every field at every depth',
  'A dictionary validates against a record type iff it has all required keys, no keys other than the required and optional ones, and a conforming value for each field present, recursively through nested, inherited, forward-referenced, mutually recursive and self-referential record types at every depth. Fields that may be absent may be absent individually and in any combination.',
  ['inputs', 'programs'], 'all record type declarations x dictionaries derived from them by adding, dropping and replacing entries at any depth',
  'Tests use two or three record types and a few values.',
  [JV, TS], [('record validation', JV + ':validate_TypedDict')], ['outcome of validate_type'])
p('C19', 'Validation has no side effects and no memory',
  'Validating changes neither the value nor the type: the verdict for a value and a type is the same in whatever order and however often other values were validated against the same or related types before, successfully or not. Annotations, keys and values are afterwards what they were before.',
  ['histories'], 'all sequences of validations over related types',
  'Tests validate each type once or twice, always in the same order.',
  [JV], [('annotation updates and caches', JV + ':validate_TypedDict, validate_enum')], ['verdicts in a history against verdicts on fresh types; deep snapshots of values and annotations'])
p('C20', 'Type-checked functions behave as the function plus validation',
  'A type-checked function called with any mix of positional, keyword, defaulted and variadic arguments raises a TypeError before the body runs iff an argument does not conform to its annotation or the call does not fit the signature; otherwise it returns exactly what the function returns or raises what it raises. Return values are checked iff requested, parameters without annotation are never checked, and name, documentation and signature are kept.',
  ['inputs', 'programs'], 'all signatures x all calls',
  'Tests call functions with one or two positional parameters.',
  [JV], [('decorator', JV + ':type_check')], ['outcome of decorated calls against inspect.signature binding plus the reference predicate'])
p('C21', 'JSON data validates iff it fits the TypeScript definition',
  'For every accepted document, every interface in it and every JSON value: the value validates against the generated class iff it conforms to the TypeScript interface, where numbers may be written with or without fraction and tuples are JSON arrays. This holds for data that went through serialisation and for every version option.',
  ['programs', 'inputs', 'configurations'], 'all documents x JSON values built from or against the definition x options',
  'No test goes from TypeScript source over generated code to validation of data.',
  [PAR, JV, TS], [('transpiler', PAR + ':compile_src'), ('validation', JV + ':validate_type'), ('required keys', TS + ':_new_typed_dict')], ['outcome of validate_type on generated classes against a conformance predicate on the TypeScript side'])
p('C22', 'Record classes of the shim behave like the standard ones',
  'A record class defined with the TypedDict replacement, in class or functional syntax, with inheritance and generic parameters, has the same annotations in the same order as a standard one, is a dictionary factory, and divides its keys into required and optional ones: a key is optional iff its declared type is marked as not required, is None, or is a union with None as an alternative, in whatever notation, written out or as a forward reference. Inherited keys keep their status unless redeclared.',
  ['programs'], 'all class definitions over notations of optionality, inheritance and generics',
  'Tests define a few record classes and do not look at key sets.',
  [TS], [('class construction', TS + ':_new_typed_dict/_TypedDictMeta/TypedDict')], ['__annotations__, __required_keys__, __optional_keys__, calls; compared with typing.TypedDict'])
p('C23', 'Overload dispatch equals the standard library, plus forward references',
  'For every set of overloads registered in any order and by any registration form (annotation, union annotation, explicit type, forward-referenced type name), and every history of registrations, calls and dispatch queries, calling a single-dispatch function or method runs the overload that the standard library would choose for the first argument. An overload on a type defined only later is used once the type is defined, and no registered overload is ever lost or shadowed by an earlier lookup.',
  ['histories', 'programs'], 'all class hierarchies x registration forms and orders x interleaved calls',
  'Tests register two or three overloads in one order.',
  [SD], [('dispatch', SD + ':singledispatch'), ('methods', SD + ':singledispatchmethod'), ('postponed registration', SD + ':register/dispatch')], ['result of calls against functools.singledispatch with eagerly resolved annotations'],
  [('registry, dispatch_cache', 'implementations by class; cached lookups', SD + ':singledispatch')])
p('C24', 'Functions and methods keep their signatures',
  'For every document of functions and of interfaces with methods over plain types that is accepted without errors, the generated module runs, and each function or method has its name, its parameters in order with their types, its defaults for optional parameters, its variadic tail and its return type; overloads of one name remain callable with each first-argument type and run the matching definition.',
  ['programs', 'configurations'], 'all function and method declarations over plain parameter types, with overloads',
  'Tests check few signatures as text; overloads are executed once.',
  [PAR, SD], [('functions', PAR + ':on_function/on_arg_list/on_argument/on_arg_tail'), ('overloads', PAR + ':mark_overloaded_functions')], ['inspect.signature and type hints of the executed functions'])
p('C25', 'Generic definitions stay generic in their parameters',
  'Every generic interface and alias of an accepted document yields a definition that declares its type parameters in order, whose fields mention exactly these parameters where the source does, and that can be specialised and extended with as many type arguments as the source does. Type parameters of one definition never leak into or clash with those of another.',
  ['programs', 'configurations'], 'all generic interfaces and aliases x uses x version options',
  'Tests contain a few generic interfaces, mostly checked as text.',
  [PAR, TS], [('type parameters', PAR + ':process_type_parameters/on_interface/on_type_alias/on_generic_type')], ['__parameters__, type hints and specialisations of the executed classes'])
p('C26', 'The shipped parser implements the shipped grammar',
  'For every text, the parser contained in the program and a parser freshly generated from the grammar file that is shipped with it accept and reject the same input and build the same syntax tree.',
  ['inputs'], 'all texts: valid, mutated and random',
  'Tests only exercise the contained parser; it is not compared with the grammar, and a difference surfaces only when the parser is next regenerated.',
  [EB, PAR], [('grammar', EB), ('generated parser', PAR + ':ts2pythonGrammar')], ['syntax trees and errors of both parsers'])
p('C27', 'TypeScript parts of LSP specifications are extracted completely',
  'For every specification file, the extraction program writes the lines of all TypeScript code blocks of the file and of the files it includes, at any depth and by relative or absolute path, in the order of the including text. It leaves out prose, blocks in other languages, comment lines that start a line, and usage examples (from a line that starts with a brace, bracket or call to the end of its block). The transpilation of the extracted text is that of its declarations.',
  ['inputs', 'programs'], 'all trees of specification files (prose, code blocks, examples, includes, links), read from disk or over HTTP',
  'No test covers the extraction program.',
  ['demo/extract_ts_from_lsp_specs.py'], [('extraction', 'demo/extract_ts_from_lsp_specs.py:extract/no_declaration'), ('includes', 'demo/extract_ts_from_lsp_specs.py:download_specs/download_specfile')],
  ['the written file, line by line; the transpilation of it'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))

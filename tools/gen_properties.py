import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,hook=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    P.append(d)
S='libhext/src/'; I='libhext/include/hext/'
p('C01','Concurrent extraction equals sequential extraction',
 'Any number of threads may extract from the same rule and the same document at the same time, and every call returns exactly what it returns when it runs alone. This holds for every interleaving, including while calls in other threads fail (exhausted search budget, failed allocation, throwing user component) and while other threads parse, copy and destroy unrelated rules and documents. No two such calls make unsynchronised conflicting accesses to the same memory.',
 ['schedules','fault_sequences'],'all interleavings of extract/parse/copy/destroy calls by several threads that share const rules and documents, at the granularity of single memory accesses, with faults in some of the calls',
 'Every existing test is single-threaded; the const extraction API is documented as shareable only implicitly and no test runs two calls at once.',
 [S+'Rule.cpp',S+'RuleMatching.cpp',S+'NodeUtil.cpp',S+'StringUtil.cpp',S+'ParseHext.cpp',S+'Parser.cpp',S+'Builtins.cpp',S+'Html.cpp'],
 [('extract and everything it calls is const and keeps its working state in locals passed by reference','libhext/src/Rule.cpp Rule::extract, libhext/src/RuleMatching.cpp'),
  ('the search budget is taken by value, one counter per call','libhext/src/Rule.cpp Rule::extract'),
  ('parser state lives in the Parser object and in locals','libhext/src/Parser.cpp Parser::parse')],
 ['return value or exception of Rule::extract, ParseHext','memory accesses of libhext code'])
p('C02','A copied rule is an independent value',
 'Copying or assigning a rule yields a rule that extracts the same results, and from then on changing, moving or destroying either one is never observable through the other, whichever threads use them. The same holds for copied and copy-assigned captures, matches, value tests and pipe chains. User-supplied components are duplicated by a copy, never shared between the copies.',
 ['histories','schedules'],'all histories of copy, assign, self-assign, move, append, set and destroy on rules and their parts, interleaved across threads that each own one of the copies',
 'Unit tests copy a handful of fixed rules once and compare one extraction; they do not mutate or destroy the source afterwards in arbitrary orders, nor use the copies from different threads.',
 [S+'Rule.cpp',I+'Cloneable.h',S+'StringPipe.cpp',S+'AttributeCapture.cpp',S+'FunctionCapture.cpp',S+'AttributeMatch.cpp',S+'FunctionValueMatch.cpp',S+'NegateMatch.cpp',S+'NegateTest.cpp'],
 [('deep copy of child, next, nested rules and clone() of matches and captures','libhext/src/Rule.cpp Rule(const Rule&)'),
  ('copy-and-swap assignment','libhext/src/Rule.cpp operator='),('pipe chains are cloned recursively','libhext/src/StringPipe.cpp')],
 ['results of extract/capture/matches on either copy'])
p('C03','Outcomes do not depend on history or memory layout',
 'The outcome of parsing a template and of extracting from a document (the rule, the results and their order, or the error and its message) depends only on the template text, the document bytes and the search budget (under one global locale). It is the same whatever calls came before in the process or thread, including calls that failed, whatever addresses the objects occupy or reuse, and whatever stale bytes memory holds.',
 ['histories','configurations'],'all histories of parse, extract, copy, destroy and failed calls preceding a call, under any allocator behaviour (address reuse, memory contents)',
 'Each test case runs in a fresh process on fresh memory and performs one or two calls, so state kept between calls, stale pointers keyed by address or reads of uninitialised memory are invisible.',
 [S+'Rule.cpp',S+'RuleMatching.cpp',S+'Parser.cpp',S+'PatternValues.cpp',S+'ParseHext.cpp',S+'NodeUtil.cpp'],
 [('pattern state is reset after every pattern','libhext/src/PatternValues.cpp reset'),('no static mutable state','libhext/src'),('constructors initialise every member','libhext/src/Rule.cpp')],
 ['return value or exception of Rule::extract, ParseHext'])
p('C04','Running out of memory is reported, never fatal, and leaks nothing',
 'If an allocation made by the library fails at any point while a template is parsed, a rule is built, copied or assigned, or values are extracted, the call either throws std::bad_alloc to its caller or completes with its normal outcome. It never terminates the process, never returns an incomplete result, never reports a different error, and loses no memory.',
 ['fault_sequences'],'every position of a failing allocation (single, or all from a point on) in every parse, build, copy, assign and extract call; the third-party HTML parser\'s own allocations are excluded',
 'No test makes an allocation fail.',
 [S+'Parser.cpp',S+'Rule.cpp',S+'RuleMatching.cpp',S+'SyntaxError.cpp',I+'MaxSearchError.h',S+'PatternValues.cpp',S+'StringPipe.cpp'],
 [('ownership by unique_ptr/vector/string only','libhext/src/Rule.cpp'),('noexcept only where nothing can throw','libhext/include/hext')],
 ['exception type leaving the call','live allocation count'])
p('C05','A failed call changes nothing',
 'When parsing, copy-assigning, appending or extracting fails (failed allocation, exhausted search budget, exception from a user component), every rule and document involved behaves exactly as before the call. Repeating the call once the fault is gone gives its normal outcome.',
 ['fault_sequences','histories'],'every failure point of every call in a history, with all involved objects probed after the failure',
 'Tests cover no failing call except syntax errors and one exhausted budget, and never use the objects again afterwards.',
 [S+'Rule.cpp',S+'RuleMatching.cpp',S+'AttributeCapture.cpp',S+'FunctionCapture.cpp',S+'NegateMatch.cpp'],
 [('extract is const and builds its result in locals','libhext/src/Rule.cpp extract'),('copy-and-swap','libhext/src/Rule.cpp operator=')],
 ['results of later calls on the same objects'])
p('C06','Exceptions from user components reach the caller unchanged',
 'An exception thrown by a user-supplied match, value test, capture, pipe or function at any of its invocations leaves the extraction call with its type and content unchanged, no further user component is invoked by that call, and no memory is lost. User components may themselves start extractions, also with the same rule and document, and every such nested call returns its normal result without disturbing the outer one.',
 ['fault_sequences','histories'],'every invocation index at which any user component throws or re-enters the library',
 'Tests only use user functions that return normally, once.',
 [S+'FunctionMatch.cpp',S+'FunctionCapture.cpp',S+'FunctionValueMatch.cpp',S+'Rule.cpp',S+'RuleMatching.cpp',I+'Match.h',I+'Capture.h',I+'StringPipe.h',I+'ValueTest.h'],
 [('no catch and no noexcept between extract and the component','libhext/src/RuleMatching.cpp'),('no shared working state','libhext/src/Rule.cpp')],
 ['exception leaving extract','sequence of component invocations'])
p('C07','The search budget is an exact deadline for each call',
 'An extraction with search budget 0 never fails for exhausting it; for a given rule and document there is one threshold such that every non-zero budget up to it makes the call throw the budget error and every larger budget gives exactly the unlimited result, never a partial one. For a rule without nested rule blocks the threshold is the number of sibling groups in the searched tree (one for the start plus one for every element that has children). Every call has its full budget regardless of earlier, concurrent or nested calls and of earlier exhaustion.',
 ['fault_sequences','histories'],'every budget value (every cancellation point) for every rule, document and preceding history',
 'Tests try budget 1 and 0 on one document each.',
 [S+'RuleMatching.cpp',S+'Rule.cpp','libhext/bindings/wrapper/Rule.cpp'],
 [('decrement-and-throw at the start of each sibling group','libhext/src/RuleMatching.cpp SaveMatchingNodesRecursive'),('budget passed by value into extract, by reference below','libhext/src/Rule.cpp')],
 ['exception or result of extract'])
p('C08','Objects can be moved and destroyed in any order',
 'Rules, documents and results may be moved, swapped, kept in growing containers and destroyed in any order: the moved-to object behaves as its source did, the source can still be destroyed or assigned to, nothing is freed twice or used after it was freed, and nothing is leaked. Results and copied rules stay valid after the rule and the document they came from are gone.',
 ['histories'],'all histories of construction, move, move-assignment, swap, container growth and destruction',
 'Tests destroy objects in scope order and never move a document.',
 [I+'Html.h',S+'Html.cpp',I+'Rule.h',S+'Rule.cpp','htmlext/main.cpp',I+'Result.h'],
 [('move operations of the document handle','libhext/include/hext/Html.h'),('results own their strings','libhext/include/hext/Result.h')],
 ['memory errors','results of extract after the history'])
p('C09','htmlext output depends only on the input bytes, not their delivery',
 'For the same options and the same template and document bytes, htmlext writes the same output and exits with the same status however the system delivers the bytes: from a regular file, a pipe or standard input, in reads of any size, interrupted or delayed, from files that grow or shrink before they are read, and with only one file allowed open at a time. Every input is read to its end and processed completely. Results are those of the library for these bytes, rule by rule in the order given (files, then strings) and document by document in the order given.',
 ['schedules','fault_sequences','configurations'],'all ways to split, interrupt and delay reads of all inputs, and all file kinds',
 'The tests read small regular files and process substitutions whose content arrives in one read.',
 ['htmlext/main.cpp','htmlext/htmlext/File.cpp','htmlext/htmlext/Json.cpp','htmlext/htmlext/ProgramOptions.cpp'],
 [('reads until end of file through a stream buffer','htmlext/htmlext/File.cpp ReadFileOrThrow')],
 ['bytes written to standard output, exit status'])
p('C10','An unreadable or invalid input yields an error and no output',
 'If any template or document cannot be opened or cannot be read to its end (missing, no permission, a directory, an I/O error after any number of bytes), or any template is invalid, htmlext exits with a non-zero status, reports an error that names the offending input on standard error, and writes nothing to standard output. A failed read is never taken for the end of the file.',
 ['fault_sequences'],'every open and read call of every input failing with every error',
 'No test makes an open or read fail; the only failing inputs tested are wrong arguments and syntax errors.',
 ['htmlext/main.cpp','htmlext/htmlext/File.cpp','htmlext/htmlext/ErrorOutput.cpp'],
 [('all inputs are read and parsed before the first extraction','htmlext/main.cpp'),('stream state check after reading','htmlext/htmlext/File.cpp')],
 ['standard output, standard error, exit status'])
p('C11','Exit status 0 means all output was written',
 'htmlext exits with status 0 only if standard output accepted every byte of its output. If writing fails at any point (full disk, I/O error, closed pipe), it exits with a non-zero status and reports an error on standard error. The bytes accepted are always a prefix of the complete output; short and interrupted writes are continued without loss or duplication.',
 ['fault_sequences'],'every write to standard output being short, interrupted or failing after any number of bytes, with any mix of options',
 'Tests write to a pipe that accepts everything.',
 ['htmlext/main.cpp','htmlext/htmlext/Json.cpp','htmlext/htmlext/ProgramOptions.cpp','htmlext/htmlext/Version.cpp.in'],
 [('output through std::cout, flushed and checked before success is reported','htmlext/main.cpp')],
 ['bytes accepted by standard output, standard error, exit status'])
p('C12','A damaged template is parsed or rejected cleanly',
 'For a template that was cut off at any byte or had bytes flipped, dropped, duplicated, zeroed or overwritten, parsing either returns a rule that can be copied, extracted with and destroyed, or throws the syntax error with a message whose reported line and column lie within the text. A character reported as unexpected is so whatever follows it, and the text before it contains none. No other exception, crash, hang or read outside the text occurs, and embedded zero bytes are seen, not taken for the end. htmlext reports such a template as an error and exits non-zero exactly when the library rejects its bytes.',
 ['fault_sequences','inputs'],'every truncation point and every short sequence of byte-level storage faults applied to any stored template',
 'Tests parse intact templates and some dozens of hand-written invalid ones.',
 [S+'Parser.cpp','libhext/ragel/hext-machine.rl','libhext/ragel/Parser.cpp.rl',S+'StringUtil.cpp',S+'ParseHext.cpp','htmlext/main.cpp'],
 [('error action of the state machine and checks of the rule stacks','libhext/src/Parser.cpp')],
 ['return value or exception of ParseHext','exit status of htmlext'])
p('C13','A damaged document never breaks extraction',
 'For a document that was cut off at any byte or had bytes flipped, dropped, duplicated, zeroed or overwritten, extraction with any template completes within work bounded by the sizes of the template and the document, and returns a result or one of the errors it also has for intact documents. It never crashes, never reads outside the document, and never invokes undefined behaviour. The result for the same damaged bytes is always the same.',
 ['fault_sequences','inputs'],'every truncation point and every short sequence of byte-level storage faults applied to any stored document, placed in memory without slack',
 'Tests use a fixed set of intact, zero-terminated documents.',
 [S+'NodeUtil.cpp',S+'RuleMatching.cpp',S+'Rule.cpp',S+'TypeRegexMatch.cpp',S+'NthChildMatch.cpp',S+'Html.cpp'],
 [('length-bounded access to original tag text','libhext/src/NodeUtil.cpp SerializeElementTag'),('bounded sibling traversal','libhext/src/NodeUtil.cpp NextNode')],
 ['result or exception of extract','memory errors','simulated steps'])
p('C14','Python: failures become exceptions, nothing is lost',
 'In the Python binding, constructing a rule or extracting that fails for any reason (missing or unsuitable arguments, invalid template, exhausted budget, regular expression too complex, memory exhausted in the library, memory exhausted in the interpreter at any point of converting the results, a value that is not valid UTF-8) raises a Python exception and leaves the interpreter usable with no object leaked, however often it is repeated. Otherwise it returns the complete list of dictionaries, equal to the library\'s results, with repeated names as lists. The process is never terminated.',
 ['fault_sequences'],'every failing interpreter or library allocation and every failing library call during construction and extraction',
 'The pytest suite tests a syntax error and an exhausted budget; nothing fails inside the conversion.',
 ['libhext/bindings/python/pyhext.i','libhext/bindings/wrapper/Rule.cpp','libhext/bindings/wrapper/Html.cpp'],
 [('exception handlers around constructor and extract','libhext/bindings/python/pyhext.i %exception'),('scoped references during conversion','libhext/bindings/python/pyhext.i ScopedPyObject')],
 ['Python-level result or exception, interpreter block count'])
p('C15','Ruby: results survive garbage collection, failures become exceptions',
 'In the Ruby binding, extraction returns the complete array of hashes, equal to the library\'s results, whenever garbage collection (also compacting) runs during the conversion. Constructing a rule or extracting that fails for any reason (missing or unsuitable arguments, invalid template, exhausted budget, regular expression too complex, memory exhausted in the library) raises a Ruby exception and never terminates the process.',
 ['schedules','fault_sequences'],'all points at which the collector may run and library calls may fail during construction and extraction',
 'The Ruby tests run small documents for which the collector does not run inside the conversion, and no failures.',
 ['libhext/bindings/ruby/rbhext.i','libhext/bindings/wrapper/Rule.cpp','libhext/bindings/wrapper/Html.cpp'],
 [('exception handlers around constructor and extract','libhext/bindings/ruby/rbhext.i %exception'),('values stay reachable from the machine stack','libhext/bindings/ruby/rbhext.i typemap(out)')],
 ['Ruby-level result or exception'])
p('C16','PHP: failures become exceptions',
 'In the PHP binding, constructing a rule or extracting that fails for any reason (missing or unsuitable arguments, invalid template, exhausted budget, regular expression too complex, memory exhausted in the library) raises a PHP exception that a script can catch, after which the same objects work normally. Otherwise extraction returns the complete array of arrays, equal to the library\'s results. The process is never terminated.',
 ['fault_sequences'],'every failing library allocation and call during construction and extraction',
 'No PHP test is part of the test run; the blackbox cases do not contain failures.',
 ['libhext/bindings/php/phphext.i','libhext/bindings/wrapper/Rule.cpp','libhext/bindings/wrapper/Html.cpp'],
 [('exception handlers around constructor and extract','libhext/bindings/php/phphext.i %exception')],
 ['PHP-level result or exception'])
p('C22','Node.js: failures become exceptions',
 'In the Node.js binding, constructing a rule or extracting that fails for any reason (missing or unsuitable arguments, invalid template, exhausted budget, regular expression too complex, memory exhausted in the library, a failing Node-API call while arguments are read or results are converted) raises a JavaScript exception that a script can catch, after which the same objects work normally. Otherwise extraction returns the complete array of objects, equal to the library\'s results, whenever garbage collection runs. The process is never terminated. This also holds in worker threads that load the module, and for the main thread while such workers run and after they ended. (Names that are special properties of JavaScript objects, such as __proto__, aside.)',
 ['fault_sequences','schedules'],'every failing library allocation and call, every single failing Node-API call and all points of collection during construction and extraction',
 'No Node.js test is part of the test run.',
 ['libhext/bindings/nodejs/src/Rule.cpp','libhext/bindings/nodejs/src/Html.cpp','libhext/bindings/nodejs/src/Hextjs.cpp'],
 [('exception handlers around constructor and extract','libhext/bindings/nodejs/src/Rule.cpp')],
 ['JavaScript-level result or exception'])
p('C23','htmlext never passes exhausted memory off as success',
 'If memory runs out at any point of an htmlext run, it either still completes and exits with status 0 after having written its complete output, or exits with a non-zero status and an error on standard error, having written a prefix of that output. It is never ended by a signal, and a valid input is never reported as invalid.',
 ['fault_sequences'],'every failing allocation, single, in bursts and persistent, in every run of the program',
 'No test makes an allocation fail; the streams of the standard library swallow such failures.',
 ['htmlext/main.cpp','htmlext/htmlext/File.cpp','htmlext/htmlext/Json.cpp','htmlext/htmlext/ErrorOutput.cpp','htmlext/htmlext/ProgramOptions.cpp'],
 [('handlers of main and the final flush','htmlext/main.cpp main')],
 ['exit status, standard output and standard error of htmlext'])
# pure functions
p('C17','Selectors match exactly the nodes their definition names',
 'A rule\'s tag name, traits (nth-child and relatives, only-child, empty, child-count, attribute-count, type-matches, not) and attribute and text tests accept exactly the nodes that the language documentation describes.',
 ['inputs'],'all templates and all documents','Tests sample a few dozen positions and operators.',
 [S+'NthChildMatch.cpp',S+'OnlyChildMatch.cpp',S+'AttributeMatch.cpp',S+'TypeRegexMatch.cpp',S+'ContainsWordsTest.cpp'],[('counting of siblings','libhext/src/NthChildMatch.cpp')])
p('C18','Rule groups match mandatory, optional and greedy rules as documented',
 'A group of sibling rules produces a result exactly when all mandatory rules match in order, optional rules contribute where they match in between, greedy rules repeat, and results appear in document order.',
 ['inputs'],'all rule trees and all documents','Tests hold a few dozen fixed combinations.',
 [S+'RuleMatching.cpp'],[('group matching','libhext/src/RuleMatching.cpp MatchRuleGroup')])
p('C19','Captured values follow the definition of builtins and pipes',
 'Captured text, inner HTML, stripped text and attribute values, transformed by pipes from left to right, equal what the language documentation defines for the node.',
 ['inputs'],'all nodes and all pipe chains','Tests hold a few examples per pipe.',
 [S+'NodeUtil.cpp',S+'StringUtil.cpp',S+'StringPipe.cpp',S+'RegexPipe.cpp'],[('serialisation and whitespace handling','libhext/src/NodeUtil.cpp')])
p('C20','JSON output is a faithful rendering of the results',
 'htmlext prints valid JSON from which exactly the captured names and values can be read back, with repeated names as arrays in capture order, for every combination of output options.',
 ['inputs','configurations'],'all results and all option combinations','Tests sample a few options on tiny results.',
 ['htmlext/htmlext/Json.cpp','htmlext/main.cpp'],[('JSON writer','htmlext/htmlext/Json.cpp')])
p('C21','The generated parser implements the grammar',
 'The shipped parser accepts exactly the templates of the grammar file and builds the rule tree the grammar\'s actions describe; syntax errors point at the first character that cannot be part of a valid template.',
 ['inputs','programs'],'all template texts','Tests parse a fixed set of templates.',
 [S+'Parser.cpp','libhext/ragel/hext-machine.rl'],[('generated state machine','libhext/src/Parser.cpp')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
import re
for d in P:
    assert len(d['title'])<=80,d['id']
    n=len(re.findall(r'[.;]\s|\.$',d['statement'])); print(d['id'],n,len(d['statement']))

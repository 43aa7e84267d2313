import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)
Y='pp/yugen.py'; S='pp/yup.py'
p('C01','Source positions recorded while parsing are exact',
 'For every source text and every construct, what the parser leaves unconsumed is exactly the tail of that text, carrying the offset at which it really starts and the file it came from. Every token it produces (identifier, string literal, comment, plain text) carries the file and the offset of its own first character, and every application and infix expression carries an offset inside its own opening bracket.',
 ['inputs'],'all source texts, all constructs, any nesting',
 'The 22 test cases compare trees with an equality that ignores positions; nothing checks an offset, and an offset error only shows in diagnostics or in the browse file.',
 [Y],[('SOURCE slicing keeps file and position','pp/yugen.py SOURCE.__new__/__getitem__'),('every ps_* rule returns (rest, node)','pp/yugen.py ps_*')],
 [('pos, input_file','offset and file of a piece of source text','pp/yugen.py SOURCE')],['return value of the grammar rules','browse file'])
p('C02','Parsing ends, and fails only with the parser\'s own diagnostics',
 'For every source text parsing terminates (file inclusion aside). When it yields no syntax tree it stops with the preprocessor\'s own syntax-error or unexpected-end-of-file diagnostic naming the grammar rule, never with an internal Python failure such as an unbound name, an index, attribute, type or conversion error.',
 ['inputs'],'all source texts',
 'Tests contain two malformed inputs; the failing combinations (input ending in the middle of a construct, odd literals) are unbounded.',
 [Y],[('recursive-descent rules','pp/yugen.py ps_*'),('wrapping of foreign exceptions','pp/yugen.py yuparse')],None,['exception raised by parsing'])
p('C03','Delimited text ends exactly at its own terminator',
 'A quotation, a macro body and a comment form extend to the first closing parenthesis that does not match an opening parenthesis inside them, whatever text lies between, and that text is kept unchanged. A line comment extends to the end of its line, a block comment to the first terminator, an identifier and a run of blanks are as long as possible.',
 ['inputs'],'all texts and all nesting depths',
 'Tests use a handful of nested bracket patterns; depth and position of the brackets are unbounded.',
 [Y],[('bracket depth counting','pp/yugen.py ps_plain'),('termination tests','pp/yugen.py ps_quote, ps_macro, ps_comment, ps_remark_c, ps_remark_python, ps_atom, ps_gap, ps_space')],None,['syntax tree'])
p('C04','Numeric literals are recognised whole and have their C value',
 'Every decimal, hexadecimal, binary, octal (with or without the letter o) or floating literal (digits, a point, digits and an optional exponent), optionally signed and, for integers, with a long suffix, is consumed as one literal and denotes the number it denotes in C or Python. A text that does not start with a number yields no number and consumes nothing.',
 ['inputs'],'all literals of the numeric grammar',
 'Tests use about ten small decimal numbers; the literal language is infinite.',
 [Y],[('literal patterns','pp/yugen.py re_INT, re_FLOAT'),('conversion','pp/yugen.py ps_number')],None,['syntax tree'])
p('C05','Text outside macro forms is reproduced verbatim',
 'A source text that contains no macro form is translated into itself, character for character, apart from the documented blank-line reduction and the mark of the preprocessor in a magic comment. More generally the plain text, strings and comments around macro forms appear in the output unchanged and in the original order.',
 ['inputs'],'all texts free of macro forms; all interleavings of plain text with macro forms; every comment-skipping mode',
 'Tests fix a few surrounding texts; the guarantee is over every C or Python file a user passes through.',
 [Y],[('text rule collects leaves that tile the input','pp/yugen.py ps_text, ps_plain'),('text evaluation keeps leaves','pp/yugen.py yueval'),('rendering','pp/yugen.py _plain, _plain_with_browse')],None,['generated text'])
p('C06','Diagnostics name the right file, line and column',
 'The location shown for an offset of a source text names the file it belongs to, the line number is one plus the number of line ends before that offset, the line shown is that line without its indentation, and the pointer stands under the character at that offset. For text produced by a macro or an evaluated string the locations of the call and of the declaration precede it.',
 ['inputs'],'all texts, all offsets (including empty lines and the end of the text), all nesting of macro expansions',
 'No test looks at the text of a diagnostic.',
 [Y],[('location rendering','pp/yugen.py _loc')],[('source table','text and declaration of every file or expansion','pp/yugen.py yushell.source, yushell.inclusion')],['diagnostic text'])
p('C07','Blank-line reduction removes nothing but surplus blank lines',
 'With the option on, the non-blank lines of the result are exactly the non-blank lines of the input in the same order (without trailing white space), never two successive lines of the result are blank, a blank line is kept wherever one or more stood between two lines, and applying the reduction again changes nothing. With the option off the text is returned unchanged.',
 ['inputs','configurations'],'all texts, option on or off, with and without browse information',
 'Only the expected outputs of 14 cases pass through it.',
 [Y],[('line filter','pp/yugen.py reduce_emptiness')],None,['generated text'])
p('C08','Browse information leads from generated text back to its origin',
 'With browse information on, looking up any character of the generated text that was copied from a source file leads to a character of that file with the same value (from the text of a macro or an evaluated string, to its call and its declaration), through every combination of indentation change, blank-line reduction, loops and nesting. Lookup in the offset table always uses the last entry not after the position.',
 ['inputs','programs'],'all generated texts, all positions, any nesting of re-indentation and reduction',
 'No test turns browse information on.',
 [Y,'sublime_text/Data/Packages/yupp/yupp.py'],[('offset composition','pp/yugen.py _merge_offset, _bisect'),('concatenation','pp/yugen.py RESULT.add_text'),('offset computation','pp/yugen.py TRIM.trim_with_browse, reduce_emptiness'),('lookup','sublime_text .../yupp.py _bisect, GotoOriginCommand.run')],[('browse, offset','position tables saved next to the output','pp/yugen.py RESULT')],['.json browse file'])
p('C09','Expansions are re-indented uniformly and otherwise unchanged',
 'When re-indentation is on, an expansion has its common indentation replaced by the indentation of the application on every line but the first (the text of a macro that sets names keeps its own after it), and nothing else in it changes: the lines, their order and their text after the indentation stay the same. When it is off the expansion is inserted unchanged.',
 ['inputs','configurations'],'all expansion texts, all indents, option on or off, with and without browse information',
 'Tests contain a few fixed indents.',
 [Y],[('re-indentation','pp/yugen.py TRIM.trim, TRIM.trim_with_browse, PLAIN.add_indent')],None,['generated text'])
p('C10','Names resolve to the innermost binding, and only that one is updated',
 'A name denotes the value of the innermost enclosing scope that binds it, even if that value is empty, and is reported as not found only if no scope binds it; user bindings hide built-in functions. Updating a variable through an iterator changes that innermost binding and no other, and yields the value it had before. The parameters of a scope are enumerated once each in the order they were last bound.',
 ['inputs','histories'],'all chains of scopes, all sequences of bind, rebind, unbind, update and lookup',
 'Tests use scope chains two or three deep with distinct names.',
 [Y],[('scope chain','pp/yugen.py ENV'),('variable and iterator evaluation','pp/yugen.py yueval VAR, EMIT')],[('order','binding order of a scope','pp/yugen.py ENV.order')],['value of a variable'])
p('C11','Arguments bind to parameters by position, name and default',
 'In an application of a lambda or macro the named arguments bind the parameters they name, the remaining arguments bind the unassigned parameters from left to right, a variable argument list takes all arguments that remain, and parameters left over take their defaults. A named argument that names no parameter is an error while parameters are unassigned; an application that still lacks arguments stays a function.',
 ['inputs','programs'],'all parameter lists and argument lists',
 'Tests fix about twenty signatures.',
 [Y],[('application','pp/yugen.py yueval APPLY'),('next unassigned parameter','pp/yugen.py ENV.unassigned'),('first argument','pp/yugen.py _list_eval_1')],None,['result of an application'])
p('C12','A conditional evaluates its condition first and only the chosen branch',
 'A conditional whose condition evaluates to a final value yields the value of the first alternative if that value is true and of the second otherwise (nothing if there is none). The condition is evaluated exactly once and the alternative not chosen is never evaluated, so its errors and effects do not occur.',
 ['inputs','programs'],'all conditions and alternatives',
 'Tests contain three conditionals whose rejected branch is harmless.',
 [Y],[('conditional evaluation','pp/yugen.py yueval COND, COND_CLOSURE')],None,['generated text'])
p('C13','Lists keep their elements and order through evaluation and loops',
 'Evaluating a list evaluates each element once, in order, drops the elements that are nothing and splices embedded lists in place. Applying a list applies the functions in turn to each element in order, each time to a fresh copy of the function, and collects what is not nothing; applying a number selects the element at that index of the arguments, or of the single list given, and nothing beyond the end.',
 ['inputs','programs'],'all lists, all indices, all numbers of functions',
 'Tests use lists of at most six elements.',
 [Y],[('list evaluation, loop, subscript','pp/yugen.py yueval'),('first argument','pp/yugen.py _list_eval_1')],None,['result of an evaluation'])
p('C14','Built-in list functions do what their documentation says',
 'For every list, head, tail, lowest and highest index of a value, slice, reversal, list construction and removal of duplicates return what the documentation says. The result depends on the arguments alone, not on earlier calls, and the arguments are not changed.',
 ['inputs','histories'],'all lists and values, all sequences of calls',
 'Tests call a few of them once, on one list each.',
 [Y,'doc/builtin.md'],[('built-in table','pp/yugen.py builtin')],None,['value of an application'])
p('C15','The output name follows the documented mapping and is never the input',
 'For every input name the output name is the input name without the yupp extension if that leaves an extension, or with the language suffix of the yupp extension, and otherwise has the generated-file mark inserted; it lies in the output directory if one is given and else beside the input. The derived output is never the input file itself, so preprocessing cannot overwrite its source.',
 ['inputs','configurations'],'all file names, with and without an output directory',
 'No test calls it; names with dots, hyphens, no stem or mixed case are unbounded.',
 [S],[('name derivation','pp/yup.py _output_fn')],None,['name of the output file'])
p('C16','A run never loses the previous output and reports failures to write',
 'At every moment of a pass over a file, including after any failing file operation, the content the output file had before that pass is intact under its own or its backup name, and a pass whose translation fails leaves the existing output file and backup untouched. A pass is reported as successful only if the complete text was written under the output name.',
 ['fault_sequences','crash_points'],'all prior states of output and backup, a failure or stop at every file operation',
 'No test writes a file, let alone fails at a chosen operation.',
 [S],[('backup before write','pp/yup.py shell_backup, shell_savetofile, _pp_stream')],None,['output, backup files, returned status'])
p('C17','The exit status counts the failed files, and every output pass is made',
 'The status of a run over files is four times the number of input files that were not processed successfully, whichever they are, and this is the exit status of the program however it is started. For each file exactly as many passes are made as the file asks for, numbered from zero, stopping at the first pass that fails.',
 ['inputs','histories','fault_sequences'],'all lists of files, all patterns of success and failure, all numbers of passes',
 'No test runs the command line.',
 [S,'__main__.py','pp/__main__.py'],[('command loop','pp/yup.py cli, _pp_file'),('entry points','__main__.py, pp/__main__.py')],None,['exit status'])
p('C18','A generated file is reused only while it is up to date',
 'Preprocessing on import is skipped only if it is not forced, the output exists, and the output is strictly newer than the source and than every declared dependency; in every other case, including a dependency that cannot be examined, the source is preprocessed again. A reused output is returned as it was saved, and the number of header lines reported as removed is the same whether the output was reused or regenerated.',
 ['inputs','configurations','fault_sequences'],'all modification times, all dependency lists, all failures to read a time, all header forms',
 'No test touches the cache.',
 [S,Y],[('freshness test','pp/yup.py proc_stream'),('header','pp/yugen.py ps_header_python')],None,['whether preprocessing ran'])
p('C19','Imports take the first file found, and libraries are included once',
 'An import reads the file of that name in the working directory if there is one, and otherwise the first one found in the directory of the source, the directories given by the user in their order, and the library directory. A library imported by name is included once per run and yields nothing again; a quoted file is included every time; a Python script is executed once.',
 ['inputs','configurations','histories'],'all names, directory lists, file systems and import sequences',
 'One test imports from one directory.',
 [Y],[('search','pp/yugen.py _import_source, _import_python'),('dispatch','pp/yugen.py ps_import')],[('source, script','what has been imported','pp/yugen.py yushell')],['imported text'])
p('C20','Each file is preprocessed independently of the files before it',
 'The result for a file depends on its text, its names, the options in force and the files it imports, and on nothing left over from files preprocessed earlier in the same process: imported names, constants, output name, loop and error state are all reset.',
 ['histories'],'all sequences of runs in one process',
 'The tests run one after another but share no names that could leak.',
 [Y,S],[('reset','pp/yugen.py yushell, yuinit, feedback')],[('run state','attributes of yushell, feedback, RESULT.files, builtin','pp/yugen.py')],['generated text'])
p('C21','Options come from the most specific place that sets them',
 'For a file preprocessed on import each option has the value set by the configuration script of that file, else by the directory-wide script, else the documented default; an option left with a value of a wrong kind has its default and a script that fails is reported without stopping the run. Every option reaches the one setting it names, and an option not given has its default even if an earlier run set it. A constant defined by an option has in the text the value written after its first colon, without the space around it, or true.',
 ['configurations','histories'],'all combinations of scripts and option values, all earlier settings',
 'No test sets an option.',
 [S,Y,'pp/yuconfig.py'],[('layering','pp/yup.py shell_parse_yuconfig, _exec_yuconfig_script'),('application','pp/yup.py _pp_configure'),('constants','pp/yugen.py _update_builtin_from_config')],None,['settings in force'])
p('C22','The codec answers exactly to its own name',
 'The codec lookup answers to the name yupp and to yupp followed by a dot and a known encoding, in any letter case, and to no other name. The codec it returns encodes and writes with the named base encoding, UTF-8 by default.',
 ['inputs'],'all codec names',
 'No test imports the codec.',
 ['__init__.py'],[('lookup','__init__.py yupp_search_function')],None,['codec lookup'])
p('C23','Tracebacks name the generated file and leave other frames alone',
 'In a traceback a frame of a preprocessed source is shown in its generated file, at its line lowered by one less than the number of removed header lines but never below one. Every other frame keeps its file and its line, and no frame is added, dropped or reordered.',
 ['inputs','histories'],'all stacks, all sets of preprocessed files',
 'No test formats a traceback.',
 ['pylib/yutraceback3.py'],[('frame extraction','pylib/yutraceback3.py StackSummary.extract')],[('substitution table','source file to generated file and removed lines','pylib/yutraceback3.py substitution.files')],['traceback text'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))

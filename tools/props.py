"""The properties: text for properties.jsonl and MANIFEST.json"""

NOTE = ('Holds for every value of the symbolic inputs within the bounds of '
        'the parameter sets in the evidence file; nothing is claimed '
        'beyond them. Trusts z3, the interpreter and the models of '
        'built-in operations in symex/ (validated on every run against the '
        'unmodified code). ')

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe, note=''):
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over, quant=quant,
        why=why, files=['src/disseminate/' + f for f in files], mech=mech,
        observe=observe, note=NOTE + note))


P('C01', 'Parsing of tags is faithful to the source text',
  'A text is split into plain strings and tags so that the tag tree (names, '
  'attribute strings, contents, nesting) is the one written in the source: '
  'braces within a tag are matched, a name without attributes or contents is '
  'a tag too, and no character of the plain text is lost, added or moved. An '
  'error is raised exactly when a tag with an opened brace is not closed.',
  ['inputs'],
  'every text (printable ASCII apart from quotes and dashes) up to the '
  'length bound, and every text fragment in nested tag templates',
  'Tests parse a few dozen handwritten snippets; the guarantee is about every '
  'text, and the errors are in rare adjacencies of @, names, brackets and '
  'braces.',
  ['tags/tag.py', 'tags/receivers/content.py', 'utils/string.py'],
  [('recursive content parser', 'tags/receivers/content.py'),
   ('tag factory', 'tags/tag.py: TagFactory')],
  ['content of a Tag created from a string'])

P('C02', 'Attribute strings are read and written without loss',
  'The attributes written in a tag are read as exactly the positional and '
  'key=value entries of the source, with the quotes around a value removed '
  'and any other quote kept, in source order. Formatting attributes for a '
  'target and reading them again gives the same entries.',
  ['inputs'],
  'every attribute string within the length bound; every key and value '
  'within the length bound in a list of entries',
  'Tests use a handful of attribute strings; quoting, blanks and = interact '
  'in ways only a full enumeration by character class covers.',
  ['attributes/attributes.py', 'formats/xhtml.py'],
  [('attribute parser', 'attributes/attributes.py: Attributes.load'),
   ('quotes', 'attributes/attributes.py: strip_quotes')],
  ['Attributes entries', 'Attributes.html / .tex strings'])

P('C03', 'Target-specific attributes apply to their target only',
  'An attribute with a target suffix (e.g. width.tex) takes precedence over '
  'the general attribute for that target and is never used for another '
  'target; the general one is used otherwise. Selecting or filtering '
  'attributes for a target returns the entries of that target, without the '
  'suffix, and leaves the attributes themselves as they were; a rendered tag '
  'has the attributes of the target it is rendered for.',
  ['inputs', 'configurations'],
  'every name, value and target suffix within the length bounds, in every '
  'order of the entries',
  'Tests look up a few names for one or two targets; precedence depends on '
  'the order of entries and on names which are prefixes of others.',
  ['attributes/attributes.py', 'formats/tex.py', 'formats/xhtml.py',
   'tags/tag.py'],
  [('lookup', 'attributes/attributes.py: Attributes.get'),
   ('filter', 'attributes/attributes.py: Attributes.filter'),
   ('rendered', 'tags/tag.py: Tag.html_fmt')],
  ['Attributes.get / filter / find_type', 'rendered tags'])

P('C04', 'Macros are replaced by their values, completely',
  'Every use of a defined macro in a text is replaced by its value, at any '
  'level of macros which use other macros, and all other text (including '
  'names which are not macros) is kept; an entry of a macro object '
  '(@name.entry) is replaced by that entry. If several dictionaries define '
  'the macro the first one decides; a macro in the contents of a tag is '
  'replaced before the contents are parsed.',
  ['inputs', 'configurations'],
  'every text and value within the length bounds over the macro alphabet; '
  'chains of macros up to the depth bound, in both orders of definition',
  'Tests replace a few macros once; adjacency to punctuation, braces and '
  'other macros and deeper chains are not sampled.',
  ['utils/string.py', 'tags/receivers/macros.py'],
  [('replacement', 'utils/string.py: replace_macros'),
   ('macros in tags', 'tags/receivers/macros.py')],
  ['returned text', 'content of a Tag'])

P('C05', 'The header block of a document is read exactly',
  'A block between two lines of the same dashes (three or more) at the start '
  'of a text is removed and read as its entries, and the body is exactly the '
  'text after it; a text without the block is left as it is. Each '
  '"key: value" line at the level of the header is an entry, lines indented '
  'below it (and lines without a colon) belong to its value, escaped colons '
  'are unescaped in them, and a matched pair of quotes around a value is '
  'removed. A list value is split at semicolons, otherwise at newlines, '
  'otherwise at commas.',
  ['inputs'],
  'every header and body fragment within the length bounds over dashes, '
  'colons, blanks, newlines, quotes, backslashes and letters',
  'Tests load a few well-formed headers; the boundaries of the block and of '
  'multi-line entries depend on blanks and dashes which tests do not vary.',
  ['context/utils.py', 'context/context.py', 'utils/string.py'],
  [('header block', 'context/utils.py: load_from_string'),
   ('entries', 'utils/string.py: str_to_dict, str_to_list')],
  ['BaseContext.load', 'str_to_dict', 'str_to_list'])

P('C06', 'Context entries keep their types; inheritance goes one way',
  'An entry of a context that already has a type (text, number, bool, list, '
  'mapping) keeps it when it is updated by a header or another mapping: text '
  'is converted, lists are extended in front of the existing entries, '
  'mappings are updated, and a value which cannot be converted leaves the '
  'entry as it was. A child context starts with the entries of its parent '
  '(apart from those not to inherit, which replaced entries override); '
  'changes to a child never reach the parent or another child, and a reset '
  'brings back the start.',
  ['inputs', 'histories'],
  'every text and value of the listed types within the bounds, for each '
  'pair of types; every such update before and after resets',
  'Tests update a few entries with values of the matching type; the mixed '
  'pairs and sharing of nested values show only for particular histories.',
  ['context/context.py'],
  [('typed update', 'context/context.py: BaseContext.match_update'),
   ('inheritance and reset', 'context/context.py: BaseContext.reset')],
  ['entries of parent and child contexts'])

P('C07', 'Typographic replacements change dashes and quotes only',
  'In the text of tags, two or three dashes are replaced by the en and em '
  'dash (without the blanks around them) and straight quotes by the opening '
  'or closing quote for their position; every other character is kept in '
  'order, at every level of the tag tree, and the names, attributes and '
  'literal contents of tags are not changed.',
  ['inputs'],
  'every text within the length bound over letters, blanks, punctuation, '
  'dashes and quotes',
  'Tests use a few sentences; the replacements depend on which characters '
  'are adjacent, in runs of any length.',
  ['tags/receivers/typography.py'],
  [('typography receiver', 'tags/receivers/typography.py')],
  ['content of a processed Tag'])

P('C08', 'Bodies are split into paragraphs at blank lines without loss',
  'In the tags which hold paragraphs, text between blank lines becomes one '
  'paragraph tag; tags within the text belong to the paragraph, block tags '
  'stand on their own between paragraphs. All texts and tags are kept once '
  'and in source order, no paragraph is empty, and contents of other tags '
  'are not split.',
  ['inputs'],
  'every text fragment within the length bound over letters, blanks and '
  'newlines, around and inside inline and block tags',
  'Tests process a few complete documents; blank lines next to tags, at the '
  'ends and made of several blanks are the cases which lose or duplicate '
  'text.',
  ['tags/receivers/paragraphs.py', 'tags/text.py'],
  [('paragraphs', 'tags/receivers/paragraphs.py: process_paragraphs')],
  ['content of a processed Tag'])

P('C09', 'Literal contents are kept exactly as written',
  'The contents of verbatim, code and other literal tags come through '
  'processing and into the rendered elements exactly as in the source: no '
  'macro, tag, dash, quote or blank line in them is replaced, wherever the '
  'tag stands in a body.',
  ['inputs'],
  'every contents within the length bound, over ASCII and over a markup '
  'alphabet',
  'Tests have a few verbatim examples; every processing step of a document '
  'must leave literal contents alone, for any contents and position.',
  ['tags/receivers/content.py', 'tags/receivers/macros.py', 'tags/receivers/typography.py', 'tags/code.py'],
  [('process_content flag', 'tags/tag.py, tags/receivers')],
  ['content and html of literal tags'])

P('C10', 'Rendered (x)html has the texts and permitted attributes of tags',
  'The element of a tag has the name for the tag, only the attributes '
  'permitted for it (for the rendered target), and its texts and nested '
  'elements in source order at each level; names which are not html elements '
  'become spans with the class of the name, and a missing required attribute '
  'is an error. Text and values are escaped, so that the markup read again '
  'gives the same tree.',
  ['inputs'],
  'every text, attribute value and nesting of the templates within the '
  'bounds',
  'Tests compare the markup of a few tags; the guarantee is about any text, '
  'including markup characters, and any combination of attributes.',
  ['formats/xhtml.py', 'tags/tag.py', 'tags/text.py'],
  [('elements', 'formats/xhtml.py: xhtml_tag, xhtml_entity')],
  ['elements and markup of html_fmt / xhtml_fmt'],
  'lxml is modelled (symex/symlxml.py); the model is compared with lxml '
  'itself when paths are validated. ')

P('C11', 'Lists keep the items, their order and nesting',
  'Every line that starts with a bullet is one item of a list, with the '
  'lines up to the next bullet as its text; its level is given by its indent '
  'relative to the least indented item. In html each item is once in the '
  'nested lists, in order, below the nearest item before it with a lower '
  'level; in tex the items have the marks for their levels.',
  ['inputs'],
  'every sequence of levels and every source of bullets, blanks and newlines '
  'within the bounds',
  'Tests use two or three regular lists; irregular indents and blank lines '
  'are in the space of level sequences which tests do not enumerate.',
  ['tags/list.py', 'formats/xhtml.py'],
  [('parser', 'tags/list.py: parse_string_list'),
   ('nesting', 'formats/xhtml.py: xhtml_list')],
  ['items of List tags', 'nested elements', 'tex of lists'])

P('C12', 'TeX rendering keeps every text, once and in order',
  'In tex, the text of a tag is inside of its command or environment, in the '
  'order and nesting of the source, with no character lost, added or moved; '
  'plain text rendering has the texts alone. Equations have one math '
  'wrapper however tags are nested. Commands and environments have their '
  'required and optional arguments for the tex target in the order of the '
  'settings, and missing arguments or commands which are not permitted are '
  'an error. Verbatim text is in verb commands whose delimiter is not in '
  'the text.',
  ['inputs'],
  'every text and argument value within the length bounds, in templates of '
  'tags and equations',
  'Tests compare the tex of a few tags; texts with delimiters, newlines, '
  'braces or blanks are an unbounded space.',
  ['formats/tex.py', 'tags/tag.py', 'tags/text.py', 'tags/eqs.py',
   'tags/headings.py', 'tags/figs.py'],
  [('commands', 'formats/tex.py: tex_cmd, tex_env, tex_verb'),
   ('equations', 'tags/eqs.py')],
  ['tex and txt of tags'])

P('C13', 'Labels are numbered in document order, headings reset counters',
  'Labels are ordered by the order of the documents of the project and by '
  'their order in each document; labels of documents which are not in the '
  'project are removed. Each label has, for each of its kinds, its count of '
  'that kind since the counter was last reset by a label whose kind resets '
  'it, and it refers to exactly the headings it is under. After documents '
  'are loaded again, reordered or removed, this holds for the current labels '
  'as if they were created afresh.',
  ['inputs', 'histories'],
  'every sequence of label kinds, documents, and reload or reorder step '
  'within the bounds',
  'Tests number a few fixed sequences; resets and headings depend on the '
  'entire history of labels and reloads.',
  ['label_manager/label_manager.py', 'label_manager/types.py',
   'utils/classes.py'],
  [('registering', 'label_manager: register, register_content_labels'),
   ('heading links', 'utils/classes.py: weakattr')],
  ['labels, their order, number, tree_number and heading labels'])

P('C14', 'Labels are found by their ids; tags show their own labels',
  'Within a document each label id is used once (a second use is an error). '
  'A label is found by its id, with the document id (doc::id) the label of '
  'that document, without it the first in document order; an unknown id is '
  'an error. Labels of a kind and document are listed in order, and '
  'resetting documents removes exactly their labels. Headings and captions '
  'show the number and (condensed) title of their own label in text, tex '
  'and html, whatever ids other documents use. References show the number '
  'and title of the label they name and link to its document and anchor. '
  'The most specific label format for the target is used.',
  ['inputs', 'histories'],
  'every id, document and title within the length bounds, and every '
  'combination of kinds, targets and positions',
  'Tests refer to a few labels in one or two documents; equal ids in '
  'different documents, resets and format precedence are combinatorial.',
  ['label_manager/label_manager.py', 'tags/label.py', 'tags/ref.py',
   'tags/headings.py', 'tags/caption.py', 'tags/figs.py', 'tags/table.py',
   'utils/dict.py'],
  [('lookup', 'label_manager: get_label, get_labels_by_kind, reset'),
   ('labels of tags', 'tags/label.py, tags/ref.py')],
  ['labels found', 'text, tex and html of headings, captions, references'],
  'Documents are stand-ins with known target paths. ')

P('C15', 'Tables of contents and navigation follow the document order',
  'A table of contents lists every label of its kinds (headings, documents) '
  'of the document, or of all documents, once and in order, nested by level, '
  'each linked to its label; abbreviated, it has only the first label of '
  'each run of labels of another document. The next, current and previous '
  'links of a document for a target lead to the first heading of its '
  'neighbours among the documents with that target, in every document and '
  'for every target, and are absent where there is none; also after '
  'documents, targets or headings change.',
  ['inputs', 'histories', 'configurations'],
  'every sequence of labels over the documents, every assignment of targets '
  'and headings, and every change of both within the bounds',
  'Tests use three documents with the same targets and a few headings.',
  ['tags/toc.py', 'tags/navigation.py', 'tags/ref.py', 'formats/xhtml.py'],
  [('toc', 'tags/toc.py'),
   ('navigation', 'tags/navigation.py: set_navigation_labels')],
  ['items and links of Toc tags', 'context entries and Prev / Next tags'],
  'Documents are stand-ins with known target paths. ')

P('C16', 'A project is its included documents, and a reload brings it up to '
  'date',
  'The documents of a project are the root document and every file reached '
  'through include entries, each exactly once, in document order and owned '
  'by the first document that includes it, whatever cycles, repetitions and '
  'relative paths the includes have; levels, document ids, document labels '
  'and inherited header entries follow this tree. After files were edited '
  'at any time since the last load, loading again brings every document, '
  'every inherited entry and the tree itself up to date and reports that it '
  'did; without an edit it does nothing. The include and targets entries '
  'name exactly the files and extensions of their items.',
  ['inputs', 'histories', 'configurations'],
  'every include graph over the files within the bounds, every sequence of '
  'edits with any (monotone) modification times, every include and targets '
  'entry within the length bounds',
  'Tests load two or three fixed trees and edit one file at a time.',
  ['document/document.py', 'document/document_context.py',
   'document/receivers/reset.py', 'document/receivers/load.py',
   'document/receivers/process_headers.py',
   'document/receivers/process_document_label.py',
   'label_manager/receivers.py', 'builders/environment.py'],
  [('load and tree', 'document/document.py: load, load_required, '
    'load_subdocuments, documents_dict'),
   ('entries', 'document/document_context.py: includes, targets, reset')],
  ['documents_list, doc_ids, contexts, bodies and load() of real projects'],
  'Modification times are symbolic (the stat of source files is a '
  'stand-in); edits are later than the load before them. ')

P('C17', 'Builds are up to date',
  'After a build was made and recorded, another one is needed if and only if '
  'a file among the inputs or the output has other contents or is missing, or '
  'an argument changed; builders which share inputs do not disturb the '
  'records of each other, and the size of the chunks in which files are read '
  'does not matter. Hence the outputs of a build after any edits of the '
  'sources of a project, of its templates or of the files that its tags use '
  '(images, code, tables), in the same process or in a new one, are those of '
  'a build from nothing, and nothing is left to build.',
  ['inputs', 'histories'],
  'all contents of files, outputs and arguments before and after a change, '
  'and every sequence of edits of the parts of a project within the bounds',
  'Tests change one input file at a time and check build_needed; none '
  'compares the outputs after an edit with those of a fresh build.',
  ['builders/deciders/md5decider.py', 'builders/deciders/utils_hash.py',
   'builders/deciders/decider.py', 'builders/builder.py',
   'builders/jinja_render.py', 'builders/composite_builders',
   'builders/target_builders/target_builder.py',
   'builders/target_builders/receivers.py', 'document/document.py',
   'tags/img.py', 'tags/code.py', 'tags/data.py'],
  [('decision', 'builders/deciders/md5decider.py: build_needed'),
   ('files of tags', 'document/document.py: tag_mtimes, load_required'),
   ('incremental build', 'builders/target_builders/receivers.py: build')],
  ['build_needed() of decisions, status and output files of real builds'],
  'md5 is modelled as injective. The template of documents is a stand-in '
  'which shows the body and entries of the header (jinja2 itself is not '
  'encoded); the database of hashes is a dict under symbolic execution and '
  'the real one in replays. ')

P('C18', 'Outputs, commands and links name the right files',
  'A source or target path keeps its root, its target and the path in them, '
  'however its name, extension or sub-path is replaced. An output is in the '
  'directory of its root, target and media, has the name of its first input '
  'file (with the appended text) and the extension, and differs from those of '
  'other files; outputs without an input '
  'file are named for the document and differ if and only if the items they '
  'are made from differ, so that equations share an image only if they are '
  'the same in tex. A command has each path as one argument, in place. A file '
  'is the first with its path in the directories of the context; a link leads '
  'to the file, relative to the document, absolute or with a base url. A '
  'document is made for the targets it lists, and its links to its other '
  'formats and source lead to their files, or are empty without these. The '
  'projects of a directory are the documents in it, or in the uppermost '
  'directories below it which have documents.',
  ['inputs', 'configurations'],
  'all names of files up to the length bounds over letters, dots, blanks and '
  'dashes, in the listed directories, targets and kinds of paths; all pairs '
  'of items and of equations within the bounds',
  'Tests use a few names with one dot and no blank; the broken cases need '
  'names with several dots, none or blanks, or two equations at once.',
  ['paths/paths.py', 'paths/utils.py', 'builders/utils.py',
   'builders/builder.py', 'tags/eqs.py', 'tags/img.py',
   'tags/navigation.py', 'document/document.py',
   'document/document_context.py', 'builders/environment.py'],
  [('outputs', 'builders/utils.py: generate_outfilepath, '
    'generate_mock_parameters'),
   ('links', 'paths/paths.py: get_url'),
   ('commands', 'builders/builder.py: run_cmd_args')],
  ['paths, urls and lists of arguments returned'],
  'pathlib and posixpath of the standard library are executed symbolically '
  'as well. md5 is modelled as injective. Links do not quote characters. ')

P('C19', 'Builds run completely and in order',
  'A build of a tree of builders, one after the other or at the same time, '
  'starts a command only after the end of those before it, runs each command '
  'once whatever the time they take, makes every output from its inputs, and '
  'is done; a build after it runs nothing. If a command fails, makes no '
  'output or the process is killed, the build raises an error or has a status '
  'which is not done, no command that comes after the failed one is run, and '
  'the next build, after edits too, makes all outputs for the current '
  'inputs. After an edit of the input, or if outputs were removed, a build '
  'makes all outputs again. A command ends and is judged by its code however '
  'much it writes, and what it wrote is reported if it fails.',
  ['schedules', 'fault_sequences', 'crash_points', 'histories'],
  'all polls at which each command may end, all commands which may fail and '
  'in which way, all points between the events of commands at which the '
  'process may be killed, and all contents before and after an edit, for the '
  'listed trees of builders; all lengths of the output of a command up to '
  'the bound and all codes',
  'Tests run builders with real tools at the speed of the machine; none has '
  'a command that fails or ends late in a tree of builders, or a second '
  'build after it.',
  ['builders/builder.py', 'builders/composite_builders/composite_builder.py',
   'builders/composite_builders/sequential_builder.py',
   'builders/composite_builders/parallel_builder.py', 'builders/copy.py',
   'builders/deciders/md5decider.py'],
  [('status', 'builders/builder.py: status, build'),
   ('steps', 'builders/composite_builders/composite_builder.py: build, '
    'status')],
  ['status of builds, events of commands and output files'],
  'Commands are stand-ins for the executor: they read their inputs when they '
  'start, and write their output when they end. md5 is modelled as '
  'injective. ')

P('C20', 'Epubs are complete and up to date',
  'An epub starts with its mimetype (not compressed), the container and the '
  'content.opf, and has the documents, the table of contents and every file '
  'that they link to or show once each, with the current contents. The '
  'manifest lists each of these files once with its path in the epub and an '
  'id of its own that is a valid xml id; the spine has the documents in '
  'order after the table of contents, which is the toc.xhtml at the root of '
  'the epub, made for the epub if no document is rendered to it. An epub is '
  'made again if and only if one of its files, the files they refer to, or '
  'the source of the root document has changed.',
  ['inputs', 'histories'],
  'all names of files up to the length bounds (for ids), all references of '
  'documents to media files, all contents of files and all edits of one of '
  'them, within the bounds',
  'Tests build one epub of one or two documents once, and look at the names '
  'of some of its files.',
  ['builders/xhtml2epub.py', 'builders/target_builders/epub_builder.py',
   'builders/scanners/scanner.py', 'builders/scanners/html_scanner.py',
   'templates/default/xhtml/content.opf'],
  [('ids and paths', 'builders/xhtml2epub.py: filepath_dict_list'),
   ('files', 'builders/xhtml2epub.py: build, build_inputs, status'),
   ('table of contents', 'builders/target_builders/epub_builder.py: '
    'has_toc_xhtml, create_subbuilders')],
  ['files and names given to the zip file, entries of the content.opf, '
   'status of the builder'],
  'The zip file, the container and the render of the content.opf are '
  'stand-ins which record what they are given (jinja2 is not encoded); the '
  'slugify module is executed symbolically, for names in ascii. md5 is '
  'modelled as injective. ')

P('C21', 'Tables have every cell of their data',
  'A table of a csv or tsv tag has every cell of its data, read from the '
  'contents of the tag or from the file that they name, in its row and '
  'column and in no other place: quoted cells may have separators, quotes '
  'and blanks, rows may have fewer cells than others, blank lines are no '
  'rows, and headers may be equal. A first row is a header unless the tag '
  'has the noheader attribute. The html and tex of a table have the text of '
  'each cell, in order, and a data tag counts its rows as they are.',
  ['inputs'],
  'all texts of cells (and all texts, for the number of rows and columns) up '
  'to the length bound, for the listed shapes of tables',
  'Tests render three tables of plain words; lost rows and columns depend on '
  'the values of cells: blanks, equal headers, ragged rows, quotes and '
  'separators.',
  ['tags/data.py', 'tags/table.py', 'paths/utils.py'],
  [('read of the data', 'tags/data.py: Data.load, rows, columns'),
   ('cells of the table', 'tags/table.py: process_content'),
   ('file or text', 'paths/utils.py: find_file')],
  ['rows of the data tag, html and tex of the table'],
  'csv.reader and io.StringIO are modelled (symex/symcsv.py, which is '
  'compared with the module exhaustively for short texts). ')

P('C22', 'The preview server serves files of its directory only',
  'The page of a source file is served if and only if its path, taken in '
  'the directory of the server, is a file of a known extension within that '
  'directory: no path, whatever its parts, gives the contents of a file '
  'outside of it, and a path which is not a file is not found. The page has '
  'the contents of this file only. Each path of the server has the handler '
  'of its route, and static files come from the static directory of the '
  'package or the directory of the documents.',
  ['inputs'],
  'all paths of requests up to the length bound from the listed characters '
  '(letters, dots, slashes), for the listed trees of files',
  'Tests fetch three pages which exist; that no path gives away a file '
  'outside of the directory is about every path.',
  ['server/handlers/pygmentize.py', 'server/urls.py',
   'server/handlers/static.py'],
  [('source pages', 'server/handlers/pygmentize.py: get'),
   ('routes', 'server/urls.py: get_urls')],
  ['files read and pages written by the handler, or the error'],
  'The file system, pygments and the connection are stand-ins, which record '
  'what is read and written; pathlib and posixpath are executed '
  'symbolically. No symbolic links. ')

P('C23', 'Dependencies are reported as they are installed',
  'A python package is reported as available if and only if a package with '
  'its name is installed and its version satisfies the condition, where '
  'versions are compared number by number and 1.0 equals 1.0.0; an '
  'executable, a latex package, font or class if and only if it is found. A '
  'list that needs all (any, or none) of its dependencies is available if '
  'all (any, or in any case) of them are, for nested lists too, and every '
  'dependency of a list is looked for and listed once.',
  ['inputs', 'configurations'],
  'all versions and names up to the bounds, and every set of installed '
  'dependencies and kinds of lists for the listed trees of dependencies',
  'Tests check what is installed on the machine of the test, which is one '
  'configuration, with one version of each package.',
  ['checkers/python.py', 'checkers/utils.py', 'checkers/checker.py',
   'checkers/types.py', 'checkers/pdf.py'],
  [('versions', 'checkers/utils.py: name_and_version'),
   ('packages', 'checkers/python.py: check_packages_pip'),
   ('lists', 'checkers/types.py: SoftwareDependencyList.available')],
  ['availability and paths of dependencies'],
  'The output of pip, the search of executables and the processes of '
  'kpsewhich are stand-ins. ')

P('C24', 'Images, equations and panels are shown as they are asked for',
  'An image tag shows the first file with its name in the paths of the '
  'document, made for the target with the attributes for that target: a file '
  'in a format the target takes is copied, another one is converted to the '
  'first format of the target that an active builder exists for, with the '
  'builder of the highest priority. The html has the link of the file, the '
  'tex its path. A width in percent (or as a fraction) of an image or panel '
  'is that of its column: up to 25, 33 (34), 50, 66 (67), 75 and 100 %, the '
  'class w25, w33 ... in (x)html and 0.24, 0.32, 0.49, 0.65, 0.74 and 0.99 of '
  'the text width in tex. An equation has its contents, color and bold in '
  'tex, inline or in its environment, and in (x)html an image made of them.',
  ['inputs', 'configurations'],
  'all widths with the digits of the bounds, all names of files and contents '
  'of equations up to the bounds, every combination of the listed '
  'attributes and targets, and every set and priorities of builders',
  'Tests show a few widths, and the builders of the machine of the test.',
  ['tags/img.py', 'tags/figs.py', 'tags/eqs.py', 'tags/utils.py',
   'builders/builder.py', 'builders/composite_builders/parallel_builder.py',
   'builders/target_builders/receivers.py'],
  [('widths', 'tags/utils.py: xhtml_percentwidth, tex_percentwidth'),
   ('files', 'tags/img.py: Img.add_file'),
   ('converters', 'builders/builder.py: Builder.find_builder_cls'),
   ('equations', 'tags/eqs.py: Eq')],
  ['rendered tags', 'builders that are made and their parameters'],
  'The builders of images record what they are made for and do not run. ')

P('C25', 'Signals run their receivers in order; reports list all that there is',
  'When a signal is sent each of its receivers that still exists runs once, '
  'with the values sent, in the order of their numbers, and the results are '
  'returned in that order; a number is used by one receiver only, a receiver '
  'that was removed does not run, and a name has one signal. The lists of '
  'signals (server, command line) have every signal with its receivers in '
  'order, the tree of documents has each document once below the one that '
  'includes it with the links of its targets, and the list of dependencies '
  'has each of them with its state, which is a failure only for those that '
  'are required.',
  ['inputs', 'histories', 'configurations'],
  'all numbers of receivers, values and ways to connect, all sets of signals, '
  'trees of documents and trees of dependencies within the bounds',
  'Tests use two receivers in the order they were connected, one tree and the '
  'dependencies of the machine of the test.',
  ['signals/signals.py', 'signals/exceptions.py', 'server/handlers/tree.py',
   'server/handlers/signals.py', 'server/handlers/checkers.py',
   'cli/setup.py'],
  [('receivers', 'signals/signals.py: Signal.emit, Signal.connect'),
   ('documents', 'server/handlers/tree.py: TreeHandler'),
   ('dependencies', 'server/handlers/checkers.py: CheckerHandler')],
  ['calls of receivers, results, lists given to the templates'],
  'The pages of the server are not rendered: the values given to their '
  'templates are checked. ')

P('C26', 'Pages made from templates are well formed and have what was set',
  'A page of a document in html or xhtml has the title, description and '
  'author that are set in its header or inherited, as the text that was '
  'written, with all its characters in one well formed element, and none of '
  'these if they are not set; it has its contents once, its style sheets with '
  'links to their files, and a menu with links to exactly the formats that '
  'there are. A page in tex has its title, author and contents in the '
  'document, its options in one list; a page in txt has its contents. The '
  'package of an epub lists each file once with its type and path, marks its '
  'navigation, and has the pages in their order.',
  ['inputs', 'configurations'],
  'all titles, descriptions, authors and names over letters and the special '
  'characters of the format up to the length bounds, own or inherited, for '
  'the listed templates; all sets of links and files within the bounds',
  'Tests render fixed titles without any special character, and compare '
  'whole files.',
  ['builders/jinja_render.py', 'paths/paths.py', 'paths/utils.py',
   'templates/default/html/template.html', 'templates/default/html/menu.html',
   'templates/default/xhtml/template.xhtml',
   'templates/default/xhtml/content.opf', 'templates/default/tex/template.tex'],
  [('values', 'builders/jinja_render.py: JinjaRender.build'),
   ('escapes', 'builders/jinja_render.py: jinja_environment'),
   ('links', 'builders/jinja_render.py: rewrite_path'),
   ('templates', 'templates/default')],
  ['text of the page that was made'],
  'The templates are compiled to python by jinja on each run, and this python '
  'is executed symbolically; the escapes of markupsafe are modelled by their '
  'definition. The decider of the builder is left out (see C16). ')

P('C27', 'Authors, title pages, boxes and listings show what they are given',
  'The authors of a document are the names in the contents of the tag, or the '
  'ones of the header, in their order, separated by commas and a last "and", '
  'without empty names, also within a text and with tags in it; a title page '
  'has the title of the document as its heading, and its authors. A box has '
  'the class and environment of its kind, the classes it is given and its '
  'contents. A listing has the text of the files it names in their order, or '
  'else its own text, is formatted once in the language it is given and '
  'reports its files.',
  ['inputs', 'configurations'],
  'all names over letters, blanks and special characters within the length '
  'bounds, with each separator, from each entry; all contents of boxes and '
  'files of listings within the bounds',
  'Tests render a few fixed names with the tag on its own, and never within a '
  'text.',
  ['tags/preamble.py', 'tags/featurebox.py', 'tags/code.py', 'paths/utils.py',
   'utils/string.py'],
  [('names', 'utils/string.py: str_to_list'),
   ('authors', 'tags/preamble.py: Authors'),
   ('title', 'tags/preamble.py: Titlepage'),
   ('boxes', 'tags/featurebox.py: FeatureBox.html_fmt'),
   ('listings', 'tags/code.py: Code')],
  ['text and elements of the rendered tag', 'files of the tag'],
  'Pygments is replaced by a stand-in which records what it is given.')

P('C28', 'Starters are copied in full, and projects are built to their end',
  'Each starter is found by a name of its own, with its template, description '
  'and files. Cloning it copies each of its files to the same place in the '
  'output directory, but nothing if this is declined, and asks exactly if the '
  'directory has files and questions are allowed. The build command builds '
  'each project until its builders are done, or cannot go on, and reports '
  'this; it does not start if several projects would use one output '
  'directory. The progress has the number of builders that are done; texts on '
  'the terminal keep their lines and fill their width.',
  ['inputs', 'histories', 'configurations'],
  'all names and sets of files of starters within the bounds, all answers and '
  'states of the output directory; all sequences of statuses of builders '
  'within the bounds',
  'Tests clone the starters which are included, to an empty directory, and '
  'build a single project.',
  ['cli/init.py', 'cli/build.py', 'cli/options.py', 'cli/term.py',
   'cli/utils/progressbar.py'],
  [('starters', 'cli/init.py: generate_starters_dict'),
   ('copies', 'cli/init.py: clone_starter'),
   ('builds', 'cli/build.py: build'),
   ('directories', 'cli/options.py: check_out_dir'),
   ('progress', 'cli/utils/progressbar.py: ProgressTable')],
  ['files which are copied, by source and destination', 'printed lines',
   'number of times a builder is run'],
  'The file system, the terminal and the environments are stand-ins.')

NOT_APPLICABLE = []

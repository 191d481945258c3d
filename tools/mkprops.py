#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so it can be edited as text)."""
import json, os
L='lib/sldr/ldml.py'; M='lib/sldr/ldml_merge.py'; X='lib/sldr/py3xmlparser.py'
P=[]
def p(id,title,st,over,q,why,files,mech,observe,hook=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

p('C01','Loading a locale file does not depend on how its bytes are delivered',
 'A well-formed locale file loads to the same document whether it is opened by path or read from a file-like object and however the reads are split: any chunk size, short or interrupted reads, one byte at a time, any position of a block boundary inside markup, comments, text or multi-byte characters. The same document means the same elements, attributes, text, alternates and comments in the same places, the same removal of inherited markers (↑↑↑), and the same serialised output. It is exactly what the bytes say: nothing is lost, duplicated, reordered or attached to another element because of the delivery.',
 ['schedules','inputs','fault_sequences'],'every well-formed document, every split of its bytes into reads, short reads and interrupted reads',
 'The tests load a handful of tiny files that always arrive in a single read; no test moves a 16 KB block boundary across the markup or delivers short reads.',
 [L,X],[('incremental parse with start/end events processed per block',L+': Ldml.__init__'),('comment events injected into the element stream',L+': doComment'),('python TreeBuilder/XMLParser with event queue',X)],
 ['Ldml(path)','Ldml(fileobj)','serialize_xml output'])
p('C02','A damaged, truncated or unreadable locale file is reported, never half-loaded',
 'If a non-empty locale file is cut off inside the document, is not well-formed, or a read or open of it fails at any point, loading it raises an error; it never returns a document that holds part of the content. The failed load leaves the process as it was (no file left open, no other document changed): every other document, loaded before or after, behaves as if the failing load had not happened. Loading the same path once the file is whole and readable gives the full document.',
 ['fault_sequences','inputs','histories'],'every truncation point and read/open error position, in every history of other loads in the process',
 'No test loads a broken file or injects an I/O error, let alone at every byte or read.',
 [L,X],[('expat errors surfaced through the parser close/feed',X),('lazy class-level metadata',L+': ReadMetadata')],
 ['exception from Ldml()/LdmlMerge()','later loads in the same process'])
p('C03','Saving replaces a file atomically',
 'When a locale file is saved, by the library or by a command line tool that writes locale files (normalise, flatten, merge, import, fix, add keyboards, names or fonts, convert a sheet), then at whatever instant the process dies, the machine loses power or a system call fails (no space, I/O error, short or interrupted write), the file afterwards holds either the complete content from before that save or the complete content the save writes (a file that did not exist: nothing or the complete content), never an empty, truncated or mixed one. A save that reports success has left the complete new content in place, durable across a power loss, and one that fails reports it and leaves the content from before.',
 ['crash_points','fault_sequences','inputs'],'every system call boundary and torn write during a save, every failing call, with and without loss of unsynced data',
 'Tests never interrupt a save or make a write fail; the window is a few microseconds wide.',
 [L,'scripts/ldmlflatten','scripts/ldmlmerge','scripts/ldmlnormalize','scripts/cldrimport','scripts/fixsldr','scripts/sldraddkeymans','scripts/sldrautonames','scripts/sldraddfonts'],
 [('write to a temporary file in the same directory, sync, rename',L+': save_as')],['content of the target path on disk'],
 'system calls are intercepted below the interpreter; no hook in the repository')
p('C04','Edits acknowledged by a save are all there after restart and reload',
 'After any history of edits (adding, finding-or-creating, changing and removing elements, attributes, text and comments), saves, failed saves, process restarts and reloads, reloading the last successfully saved file gives exactly the document as it was when that save returned: every element, attribute, text value (no-break spaces, quotes, ampersands, CDATA terminators, line breaks included), alternate, draft status, comment and namespace; content that no edit touched is never changed by a load/save cycle. A normalised saved form is canonical: loading and saving it again without an edit gives the same bytes, whatever order elements and attributes were created or stored in. What may differ is layout, @draft where it only repeats the default or stands on an element with children, and which sibling a comment after the last child belongs to.',
 ['histories','crash_points','inputs'],'every sequence of edits, saves, crashes and reloads over every document content the format can carry',
 'Tests check a few single load/serialise pairs; none runs a history with restarts against an independent model of the content.',
 [L],[('normalisation order from the DTD',L+': normalise'),('escaping and namespace output',L+': serialize_xml')],['bytes on disk','reloaded document'])
p('C05','Documents open in one process do not affect each other',
 "Loading, editing, normalising, searching, merging, flattening and serialising one document gives the same result whatever is done to other documents in the same process: before it, interleaved with it operation by operation, or from other threads under any schedule. The first use of the library behaves like any later one, and options of one call (namespace placement, draft handling) do not leak into another. Every document's output is byte-identical to what the same operations give in a fresh process.",
 ['schedules','histories'],'every interleaving of operations over several documents, on one or several threads, including first use',
 'Each unit test works on one document at a time; class-level caches and mutable defaults only show under particular orders.',
 [L,M],[('class-level metadata shared by all documents',L+': ReadMetadata/ReadDTD/ReadTZData/ReadSupplementalData'),('namespace map passed down serialisation',L+': serialize_xml')],['serialised output of each document'],
 None,[('Ldml class attributes','metadata tables shared by all documents',L)])
p('C06','Batch output does not depend on scheduling, worker count or listing order',
 'The batch tools for flattening, importing, fixing and coverage write byte-identical output files and reports for the same inputs and options, whatever the number of worker processes, the way locales are divided among them, the order in which they run, the order in which directories list their entries, and the hash seed of each process. Running with multiprocessing turned off gives the same files. A locale processed in a batch gives the same file as the same locale processed alone.',
 ['schedules','configurations','inputs'],'every assignment and order of locales over any number of workers, every directory order, every hash seed',
 'The tests do not run the tools at all.',
 ['scripts/ldmlflatten','scripts/cldrimport','scripts/fixsldr','scripts/sldrcoverage',M],[('process pool map over locales','scripts/*: doit'),('sorted locale lists','scripts/ldmlflatten')],['output tree','report text'])
p('C07','One failing locale in a batch neither disturbs the others nor goes unreported',
 'When some locales of a flatten, import or fix batch cannot be processed (damaged input, unreadable file, failing write), the tool in parallel mode names every failed locale in its output, writes no partial file for it, and still writes for every other locale exactly the file it would have written had nothing failed. With multiprocessing off it does the same or stops with an error that names the failing locale. A batch in which something failed never looks the same on the console and in its exit status as one in which everything succeeded: a run in which nothing fails ends well, names no locale and leaves a file for every locale asked for.',
 ['fault_sequences','schedules'],'every subset of failing locales and failing system calls, under every scheduling of the pool',
 'The tests do not run the tools; the failure paths depend on which locales share a chunk of the pool.',
 ['scripts/ldmlflatten','scripts/cldrimport','scripts/fixsldr'],[('per-locale try/except and result collection','scripts/ldmlflatten: doit'),('pool.map_async','scripts/cldrimport, scripts/fixsldr')],['stdout/stderr, exit status','output tree'])
p('C08','An interrupted batch run, run again, ends where an uninterrupted one would',
 'If a flatten, import, fix or normalise run is killed at any point, in the parent or in any worker, and the same command is then run again to the end, the resulting locale files are byte-identical to those of a single uninterrupted run, stale files removed where that was asked for. After a kill every locale file is a complete document that either predates the run or is the one the full run produces. Running a finished command again changes no file.',
 ['crash_points','histories','schedules'],'every kill point (system call boundary) of the tool in any worker, repeated kills, then a rerun',
 'The tests do not run the tools and never kill anything.',
 ['scripts/ldmlflatten','scripts/cldrimport','scripts/fixsldr','scripts/ldmlnormalize',L],[('output is a function of the inputs','scripts/*'),('atomic save',L)],['output tree after rerun'])
p('C09','Branches edited independently merge without losing anybody\'s edit',
 "When branches of a locale file are edited independently and merged three-way against their common ancestor, every edit that no other branch contradicts (a changed, added or removed item, attribute or section) is in the result and nothing else changes, whatever the order in which branches are merged, with repeated deliveries, and with merges killed and run again; merging a branch that changed nothing, or the same branch again, changes nothing. When two branches change the same item or attribute to different values, the result keeps the receiving side's value and one comment next to it records both values and the ancestor's; if both make the same change there is no clash. If one branch removed what the other changed, the changed value survives, unless the other (sending) branch removed it and was declared the winner.",
 ['histories','schedules','inputs'],'every set of concurrent edits on every number of branches, every merge order and duplicate delivery',
 'There is no merge test; a sample of one merge cannot show order-independence or that no edit is lost.',
 [M,L,'scripts/ldmlmerge'],[('alignment by content and key hashes',M+': _align'),('recursive three-way merge',M+': merge, clash_text, clash_attrib')],['serialised merge result'])
p('C10','A flattened locale has each item from its nearest ancestor',
 'Flattening a locale against directory trees gives every item (element identified by its distinguishing attributes) that the locale or any file of its fallback chain defines (its own explicit fallback or the parent locale data, then shortened tags, root last), with the value of the nearest file that defines it and takes ↑↑↑ as not defining it; fonts are items by the types they are for (a locale inherits fonts only for types it has none for, and none if it has one for the default type, which is also what a font without types is for); collations are inherited as a whole, by a locale that has no collations element, from the nearest file that has one; its own identity is kept, and files of another script are not inherited from. Unflattening removes nothing that flattening does not restore, be it one locale or a whole tree, and rebuilding only locales whose chain meets a given set of changed locales gives what rebuilding all would. This holds at every step of a history of changes to the trees, and when a file of the chain exists but cannot be read or parsed, flattening fails rather than produce a locale without its inherited data.',
 ['histories','fault_sequences','inputs'],'every tree of locales, every history of changes to it, every read fault on an ancestor',
 'There is no flatten test; one fixed tree would not show nearest-ancestor semantics or what a failed read does.',
 [M],[('overlay along the fallback chain',M+': flattenlocale, overlay'),('difference',M+': difference'),('parent locale lookup',L+': get_parent_locales')],['serialised flattened document'])
p('C11','Reference data is loaded completely or not at all',
 'The bundled reference data (element order and attribute metadata, parent locales, collation element table, language tag data, subtag registry) is never used in a partly loaded state: whatever read or open fails, is interrupted or cut short by an exception, signal or concurrent first use, the operation that needed it fails or reports the failure (only a file that does not exist may count as absent data). Every later operation in that process works on complete tables, with the same results as in a process where nothing failed. No failed attempt is remembered.',
 ['fault_sequences','schedules','crash_points'],'every failing or interrupted open/read of every data file, every interleaving of concurrent first uses',
 'Tests load the tables once, successfully, at import or first use.',
 [L,'lib/sldr/ducet.py','lib/sldr/langtags_full.py','lib/sldr/iana.py','lib/sldr/collation.py'],[('lazy class-level initialisation',L+': Ldml.__init__, get_parent_locales'),('singleton','lib/sldr/langtags_full.py'),('readDucet','lib/sldr/ducet.py')],['results of later loads, saves and lookups in the same process'])
p('C12','Proposals arriving in any order leave the best draft in front and lose nothing',
 "When several contributors propose values for the same item, each with its own alternate name and draft status, then in whatever order the proposals arrive, with repeated arrivals and saves, failed saves and reloads in between, the item's primary value is always one with the best draft status among those received, every proposed value is present exactly once with its own draft status, and items nobody proposed for are unchanged. Changing the draft status of the primary value keeps that true, and a proposal received again changes nothing, nor does a worse one under a name that stands for a better one.",
 ['schedules','histories'],'every multiset of proposals, every arrival order, duplication and save/reload point',
 'Tests add at most one or two alternates in one order and never reload between.',
 [L],[('alternates kept per item and promotion of the best draft',L+': addnode, _add_alt_leaf, _promote, change_draft, ensure_path, normalise')],['serialised document'])
p('C13','Tools fed from the network can fail, be killed and be re-run without damage',
 'The tools that update a locale tree from downloaded or external data (keyboards, names, fonts) add what the data says and leave every other item of every file unchanged. If the network fails in any way (error, timeout, truncated or non-JSON answer, error status), or the tool is killed or hits an I/O error at any point, every locale file is complete and has its previous content or (part of) the additions for that locale, and a later healthy run ends in the same files as if the failed run had not happened. Running a tool again on the same data changes nothing. A run that ends well has done every locale that it does not name.',
 ['fault_sequences','crash_points','histories'],'every network answer or failure, every kill point, every number of re-runs',
 'The tests never run these tools; they need network.',
 ['scripts/sldraddkeymans','scripts/sldrautonames','scripts/sldraddfonts',L],[('ensure_path find-or-create',L),('per-file load, edit, save','scripts/sldraddkeymans')],['locale tree on disk'])
p('C14','The same input gives the same output in every process',
 'Every artefact the library computes from the same inputs (serialised documents, merges, tailorings generated from a sorted list or minimised, exemplar sets, formatted character sets, tag equivalence lists, chosen default fonts) is identical in every process. It does not depend on the hash seed, on memory addresses, on directory listing order or on what was computed earlier in the process.',
 ['schedules','histories','configurations'],'every hash seed, every object address order, every directory order, every prior activity in the process',
 'A test run has one hash seed and one memory layout.',
 ['lib/sldr/collation.py','lib/sldr/ldml_exemplars.py','lib/sldr/UnicodeSets.py','lib/sldr/langtags_full.py',L,M,'scripts/sldraddfonts'],[('sorting before output','all')],['serialised output'])
p('C15','Exemplar analysis does not depend on how the corpus arrives',
 'The exemplar sets (main, auxiliary, index, punctuation, digits), the grapheme counts and the detected script obtained from a corpus are the same whatever the order in which its lines are fed in, however the lines are divided among successive calls, and whether or not it was asked for results part of the way. Other corpora analysed in the same process at the same time make no difference.',
 ['schedules','histories','inputs'],'every arrival order of the lines of every corpus, interleaved with other analyses',
 'Each test feeds one fixed text in one order.',
 ['lib/sldr/ldml_exemplars.py'],[('counters accumulated per process() call','lib/sldr/ldml_exemplars.py: process, analyze')],['exemplar sets, counts and script'])
p('C16','A coverage run judges currencies by one date, and judges them right',
 'A coverage report counts, for each territory, the currency in force on the day of the run (UTC): the first listed one whose validity period, both ends included and either end possibly open, contains that day. The whole report is consistent with a single one of the days the clock showed during the run, even if midnight passes or the clock is stepped while it runs. Nothing else in the report depends on the date.',
 ['schedules','fault_sequences','inputs'],'every date and validity table, every clock jump during the run',
 'The tool is not tested; a test would see one date.',
 ['scripts/sldrcoverage'],[('compare_now','scripts/sldrcoverage')],['coverage report'])
p('C17','A failed save can simply be retried',
 'If writing a document out fails part way (full disk, I/O error, broken pipe, exception from the output function) or the writing is interrupted, the document in memory is still what it was: searching, editing, normalising and saving it again give exactly what they would have given without the failed attempt. In the same way saving, serialising and searching, successful or not, never change what a later save writes.',
 ['fault_sequences','crash_points','histories'],'every failing write position of every document, followed by any operations',
 'No test makes a write fail or serialises the same object repeatedly with failures between.',
 [L],[('alternates spliced into the tree while serialising, then removed',L+': Ldml.serialize_xml')],['output of the save after the failed one'])
p('C18','A tool run that reports success has carried all of its input over',
 "When an import, fix, flatten, normalise or sheet conversion run reports no failure for a locale, its output file has everything the inputs say. Importing: every item of each of the locale's source files (of several that define an item, the first in the order main, collation, casing, segments; collations as a whole), none with its references attribute, marked with the source, draft, script, region, revision and date the options and the tag data give. Fixing: every element and comment, with only a top-level orientation moved into the layout (default directions left out), status and region turned into marks, old attribute names of the language and script updated and the language named in a comment. Flattening: what the library gives for that locale, marked with the revision asked for. Normalising: the same content. Converting a tab separated sheet: each non-empty cell at the place its path, row and column name, and nothing else. No other file is touched, and old files are removed only if asked for and only where there is no source. This holds with short and interrupted reads and any scheduling; if a read, a directory listing or a helper command fails, what could not be carried over is reported (the locale named, or the run failing) and its output is as it was.",
 ['inputs','fault_sequences','schedules'],'every tree of inputs, every combination of options, every failing, short or interrupted read, listing or helper command',
 'The tests do not run these tools; a sample would not show what happens to an input that cannot be read or listed.',
 ['scripts/cldrimport','scripts/fixsldr','scripts/ldmlflatten','scripts/ldmlnormalize','scripts/sheetldml','lib/sldr/sheet.py',M,L],[('per-locale work','scripts/*: doit'),('overlay',M+': overlay'),('rows and tables to paths','lib/sldr/sheet.py: process')],['output tree','stdout/stderr, exit status'])
p('C19','Merging edited flat files back into the repository keeps everybody\'s work',
 "When copies of a flattened locale, marked with the revision they were made from, are edited and put back with ldmlmerge --git, in any order and however much later, the file afterwards holds the changes of everyone: every item that this copy changed as it has it, every item others changed since that revision as they left it, every other item as it was, and nothing that merely repeats what is inherited (from the parent locale of that locale, and from those that inherits from in turn). The marks of the copy (uid, revid) are gone. What is merged does not depend on what the copy is called or whether anything was committed since. If git, a read or a write fails, or the tool is killed, the file is as before or as it would have been, a run that could not do it fails, and trying again gives the same as if nothing had happened.",
 ['inputs','histories','schedules','fault_sequences'],'every order of downloads, edits, commits and merges by any number of parties, every failing call',
 'No test runs ldmlmerge with --git; a sample of histories would not show lost work, which needs particular combinations of who changed what when.',
 ['scripts/ldmlmerge','scripts/ldmlflatten',M],[('base, other from history','scripts/ldmlmerge'),('flatten and unflatten',M+': flattenlocale, difference'),('three-way merge',M+': LdmlMerge.merge')],['the merged file','exit status'])
# --- properties with nothing for a simulator to decide
why='Tests sample a few inputs.'
p('C30','Character set notation round-trips','Parsing the notation written for a set of strings gives back exactly that set, for every set of strings (controls, combining marks, supplementary characters, escapes, ranges, multi-character members). Writing what was parsed gives an equivalent notation.',['inputs'],'every set of strings and every well-formed notation',why,['lib/sldr/UnicodeSets.py'],[('parse / list2us / us2list','lib/sldr/UnicodeSets.py')],['return values'])
p('C31','A generated tailoring sorts as asked and minimising keeps the order','A tailoring generated from an ordered list sorts that list in that order, and minimising a tailoring against the default table leaves the relative order of every pair of strings unchanged. Parsing a written tailoring gives the same rules.',['inputs','programs'],'every ordered list and tailoring',why,['lib/sldr/collation.py'],[('parse/asICU/minimise','lib/sldr/collation.py')],['sort order'])
p('C32','Default collation comparison is a consistent order','Comparing two strings by the default table is antisymmetric and transitive and agrees with the table at each level.',['inputs'],'every pair and triple of strings',why,['lib/sldr/ducet.py'],[('ducetCompare','lib/sldr/ducet.py')],['return value'])
p('C33','Language tags parse, print and normalise consistently','Every well-formed tag survives parse and print, all equivalent forms of a tag map to the same entry, and the minimal and maximal forms are fixpoints.',['inputs'],'every well-formed tag',why,['lib/sldr/langtags_full.py','lib/sldr/utils.py'],[('LangTag.parse/allforms','lib/sldr/langtags_full.py')],['string forms'])
p('C34','Spreadsheet and locale file carry the same data','Converting a locale file to a sheet and back changes no mapped item, and no unmapped item is touched.',['inputs'],'every mapping sheet and locale file',why,['lib/sldr/sheet.py','scripts/sheetldml'],[('Sheet.process','lib/sldr/sheet.py')],['output files'])
p('C35','Keyboard descriptions transform keystrokes as written','For every keyboard description and key sequence the produced text and the pending context are those the transform rules define, with the longest applicable rule applied first.',['inputs','programs'],'every keyboard and key sequence',why,['lib/sldr/ldml_keyboard.py','scripts/kbdtest'],[('Keyboard.process','lib/sldr/ldml_keyboard.py')],['output text'])
p('C36','Resolving aliases terminates and preserves content','Resolving aliases ends for every document, loops included, replaces each alias by a copy of what it points to, and leaves everything else unchanged.',['inputs'],'every alias graph',why,[L],[('resolve_aliases',L)],['document'])
p('C37','Spelling dictionaries are read and written faithfully','Reading a Hunspell dictionary and affix file and writing it back keeps every word, flag and affix rule.',['inputs'],'every dictionary',why,['lib/sldr/hunspell.py'],[('Hunspell','lib/sldr/hunspell.py')],['word list'])
p('C38','Path descriptions identify their element','The path reported for an element, looked up in the same document, finds that element, for every element and every attribute value.',['inputs'],'every document and element',why,[L],[('as_xpath / find',L)],['found element'])
p('C39','Template expansion is a function of template and variables','Expanding an XML template with given variables substitutes every reference with its value in scope and evaluates no text outside the template.',['inputs','programs'],'every template',why,['lib/sldr/xmltemplate.py'],[('Templater','lib/sldr/xmltemplate.py')],['output'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
print(len(P))

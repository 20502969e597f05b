"""The properties: what they say, where they are anchored, and how they are decided."""

import os

TRUST = ('Trusted: TLC, the CommunityModules, Python\'s XML and ZIP parsers used by the recorder, and the projection from objects and '
         'files to specification values (harness/proj.py, harness/h_*.py). ')


def P(id, title, statement, over, text, why, files, mech, technique, level, note, state=(), observe=(), na=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': [os.path.normpath('src/pywriter/' + f) for f in files],
                     'mechanism': [{'name': n, 'where': os.path.normpath('src/pywriter/' + w)} for n, w in mech],
                     'state': [{'name': n, 'meaning': m, 'where': 'src/pywriter/' + w} for n, m, w in state],
                     'observe_at': list(observe), 'hook_needed': None},
         'technique': technique, 'level': level, 'level_note': note}
    if na:
        d['na'] = na
    return d


YW7 = 'yw/yw7_file.py'

PROPS = [
    P('C01', 'A saved project reads back exactly',
      'Whatever project is in memory, after it has been saved to a project file and read again every title, text, list, type, flag, '
      'order, reference, project setting and project variable has the value it had before, with "empty" and "not set" counting as equal. '
      'Reading any well-formed project file yields exactly what the file says. '
      'Saving a project that was only loaded and saving it again yields byte-identical files.',
      ['inputs', 'histories'],
      'all projects and project files (any text, any combination of present and absent elements, any order), all sequences of load, edit and save',
      'The tests compare two fixed sample files; texts with markup characters, missing elements, reordered elements and save-edit-save '
      'histories are unbounded.',
      [YW7, 'model/novel.py'],
      [('reading', YW7 + ' Yw7File.read'), ('building the element tree', YW7 + ' Yw7File._build_element_tree'),
       ('postprocessing of the raw XML', YW7 + ' Yw7File._postprocess_xml_file')],
      'TLA+ spec of the file format; recorded load/edit/save histories validated with TLC', 'model_checking',
      'Spec Yw7.tla defines ReadProject and AfterSave independently of the code; every event of seeded random histories of real files is '
      'judged by TLC field by field. Bounded by the generated projects (0-4 chapters, 0-8 scenes). ' + TRUST,
      observe=['Yw7File.read/write', 'the project file']),
    P('C02', 'Saving keeps all project data this program does not manage',
      'When a loaded project is changed in memory and saved, every element of the project file that this program does not manage (at top '
      'level, in the project section, in scenes, chapters, their custom fields, and among the project variables) is still there, once, with '
      'its value. Nothing managed is duplicated or misplaced beside it.',
      ['inputs', 'histories'],
      'all project files with arbitrary foreign elements at arbitrary places, all edits of the managed data, all numbers of saves',
      'The tests save projects without foreign data of their own, once; which foreign elements exist and where is unbounded.',
      [YW7],
      [('editing the existing element tree in place', YW7 + ' Yw7File._build_element_tree'), ('removal of managed elements', YW7 + ' build_*_subtree')],
      'TLA+ frame condition over element trees; recorded histories validated with TLC', 'model_checking',
      'FrameFaults in Yw7.tla compares the unmanaged children of each kept element as bags before and after each real save. Foreign data of '
      'world elements and project notes, which the program rebuilds by design, is outside the property. ' + TRUST,
      observe=['the project file before and after Yw7File.write']),
    P('C03', 'Chapter and scene types and export flags keep their meaning',
      'Every chapter and scene type (normal, notes, to do, unused) and every export, append, reaction and subplot flag survives saving and '
      'reading, is laid down so that yWriter understands it, and replaces whatever older combination of markers the file held. '
      'Scenes in a chapter of a special type have the type of that chapter.',
      ['inputs', 'histories'],
      'all combinations of legacy and current type markers in a file, all new values, all sequences of changes',
      'Types are encoded in up to four interacting markers; the samples hold a few combinations and are saved once.',
      [YW7, 'model/scene.py', 'model/chapter.py'],
      [('type codec', YW7 + ' read/_build_element_tree'), ('inheritance from the chapter', YW7 + ' adjust_scene_types')],
      'TLA+ model of the codec checked exhaustively with TLC, its cases replayed; histories validated', 'model_checking',
      'MC_Codec explores every prior marker combination with every new value, repeatedly; the enumerated pairs are replayed through real '
      'project files and judged by the same spec. ' + TRUST,
      observe=['Scene.scType', 'Chapter.chType', 'the project file']),
    P('C04', 'No failure, crash or lock makes a save lose the project',
      'At every moment while a project is being saved, and after any failing file operation or crash, a complete project - the old one '
      'or the new one - is on disk under its name or its backup name. '
      'A failed save is reported as an error, never as success, and after a single failure the old project is back under its name; a successful save keeps it as the backup. '
      'A project that is locked by yWriter is never written.',
      ['crash_points', 'fault_sequences', 'histories'],
      'every file operation of a save failing or being the last before a crash, full disks, a lock file, with and without existing backup',
      'The tests never let an operation fail; failures and crash points between operations cannot be sampled by comparing results.',
      [YW7, 'converter/yw_cnv_ui.py', 'ui/main_tk.py'],
      [('backup rename and restore', YW7 + ' Yw7File._write_element_tree'), ('lock check', YW7 + ' Yw7File.is_locked')],
      'TLA+ model of the save protocol with crashes and faults; fault-injected real runs validated with TLC', 'fault_enumeration',
      'Faults are injected at the file-operation level (audit hooks and resource limits), so they do not depend on how the code is written. '
      'Crashes are process deaths: what the kernel has accepted is on disk. ' + TRUST,
      observe=['the project file and its backup after each operation', 'the raised error', 'the converter\'s report']),
    P('C05', 'A conversion does the right job and reports its true outcome',
      'A conversion picks its job from the kind of source alone: a project is exported to the requested document, a document with a known '
      'suffix updates the existing project of the same name, another document creates a new project. '
      'It touches no file but its target and the target\'s backup, overwrites nothing without confirmation, and never overwrites a project it was to create. '
      'It announces a new file exactly if that file has been written completely, and reports every failure as an error.',
      ['inputs', 'configurations', 'fault_sequences'],
      'all source names, suffixes, existing and missing files, user answers, locks and defective sources',
      'The tests run each conversion on one well-formed input with an always-confirming user interface.',
      ['converter/yw_cnv_ff.py', 'converter/yw_cnv_ui.py', 'converter/import_source_factory.py', 'converter/import_target_factory.py',
       'converter/export_target_factory.py', 'converter/new_project_factory.py'],
      [('routing', 'converter/yw_cnv_ff.py YwCnvFf.run'), ('checks and reporting', 'converter/yw_cnv_ui.py YwCnvUi')],
      'TLA+ decision model of conversions; all situations enumerated by TLC and replayed in a scratch folder', 'model_checking',
      'The situations (source kind, files present, suffix, answer, lock, defect) are enumerated completely within the model; names are a finite list. ' + TRUST,
      observe=['converter.newFile', 'messages sent to the user interface', 'the folder before and after']),
    P('C06', 'Each document holds exactly the chapters and scenes meant for it',
      'Each kind of exported document contains exactly the parts, chapters and scenes that its kind and the types and export flags of the '
      'project call for, in project order, with the right headings, dividers, sections and links, and with running chapter and scene numbers that '
      'count exactly what is shown. Descriptions, notes, and world element texts appear under the element they belong to.',
      ['inputs'],
      'all projects: any order and mix of chapter levels, types, export flags, append flags, empty chapters and missing texts',
      'The tests compare documents made from one sample project whose types and flags occur in a few combinations.',
      ['file/file_export.py', 'odt_w/odt_w_export.py', 'odt_w/odt_w_manuscript.py', 'odt_w/odt_w_proof.py', 'odt_w/odt_w_scenedesc.py',
       'odt_w/odt_w_chapterdesc.py', 'odt_w/odt_w_partdesc.py', 'odt_w/odt_w_brief_synopsis.py', 'odt_w/odt_w_characters.py',
       'odt_w/odt_w_items.py', 'odt_w/odt_w_locations.py', 'odt_w/odt_w_notes.py', 'odt_w/odt_w_todo.py'],
      [('selection and numbering', 'file/file_export.py FileExport._get_chapters/_get_scenes'), ('templates', 'odt_w/*.py')],
      'TLA+ spec of each document as a block sequence; real documents projected and validated with TLC', 'model_checking',
      'Doc.tla computes the expected blocks of all text document kinds from the project; all small mixes of types and flags are enumerated, '
      'larger projects are random. ' + TRUST,
      observe=['content.xml of the written document']),
    P('C07', 'Exported documents are always valid, whatever the text',
      'Whatever characters the titles, texts, tags and names of a project hold, every exported document is a complete OpenDocument package of '
      'the right type whose parts are well-formed XML, with title, author and language of the project in its metadata. '
      'No text of the project is lost, altered, or taken for markup of the document.',
      ['inputs'],
      'all projects with all texts (markup characters, entities, code-like, overlapping or unbalanced formatting)',
      'The sample texts hold no markup characters in most fields; a defect in escaping of one field shows with one specific character there.',
      ['odf/odf_file.py', 'odt_w/odt_writer.py', 'odt_w/odt_w_formatted.py', 'ods_w/ods_writer.py', 'file/file_export.py'],
      [('escaping', 'odt_w/odt_writer.py OdtWriter._convert_from_yw'), ('package', 'odf/odf_file.py OdfFile.write')],
      'TLA+ spec of package, metadata and text; real packages projected and validated with TLC', 'model_checking',
      'Packages are parsed with Python\'s zipfile and ElementTree; the spec judges the parts list, metadata and visible text. ' + TRUST,
      observe=['the written .odt/.ods package']),
    P('C08', 'Exporting and importing an unedited document changes nothing',
      'If a document of any re-importable kind is exported and written back without an edit, the project keeps all its data; '
      'texts are the same up to the spelling of their formatting. Doing it again changes nothing further.',
      ['inputs', 'histories'],
      'all projects, all re-importable document kinds, repeated round trips, several kinds in a row',
      'The tests round-trip the sample project once per kind; loss depends on specific texts, types, orders and combinations.',
      ['odt_r/odt_parser.py', 'odt_r/odt_r_manuscript.py', 'odt_r/odt_r_proof.py', 'odt_r/odt_r_scenedesc.py', 'odt_r/odt_r_chapterdesc.py',
       'odt_r/odt_r_characters.py', 'odt_r/odt_r_items.py', 'odt_r/odt_r_locations.py', 'odt_w/odt_w_formatted.py'],
      [('writing', 'odt_w/*.py'), ('reading', 'odt_r/*.py')],
      'TLA+ spec of documents and their re-import; recorded round trips validated with TLC', 'model_checking',
      'The spec says what each document kind carries and what re-import regains; texts are compared by the markup normal form of Markup.tla. ' + TRUST,
      observe=['the project before and after export and import']),
    P('C09', 'Importing changes what the document carries and nothing else',
      'Writing an edited document back changes exactly the texts and titles that were edited in it. '
      'Everything the document does not carry - other fields, other elements, elements of other types, and unknown sections - stays as it was.',
      ['inputs', 'histories'],
      'all projects, all document kinds, all edits of texts, titles and rows, deleted and unknown sections',
      'The tests import one edited sample per kind and compare one result.',
      ['odt_r/odt_r_manuscript.py', 'odt_r/odt_r_proof.py', 'odt_r/odt_r_scenedesc.py', 'odt_r/odt_r_chapterdesc.py', 'odt_r/odt_r_characters.py',
       'odt_r/odt_r_items.py', 'odt_r/odt_r_locations.py'],
      [('section dispatch', 'odt_r/*.py handle_starttag/handle_endtag')],
      'TLA+ spec of import as a state change; edited real documents imported and validated with TLC', 'model_checking',
      'Edits are made in the real document\'s content.xml, deduced by an independent parser. ' + TRUST,
      observe=['the project before and after the import']),
    P('C10', 'Splitting scenes in a document yields exactly the marked structure',
      'When imported text contains scene, chapter or part dividers, the project afterwards consists of exactly the marked pieces in reading order: no text is lost, '
      'duplicated or moved, given titles and descriptions are taken over, and every new scene or chapter gets an unused ID and a sensible place. '
      'The converter tells whether anything was split.',
      ['inputs'],
      'all texts with dividers of all levels at all places, in all scenes and chapters of all projects',
      'The tests split one sample; the interaction of divider levels, positions and chapter boundaries is combinatorial.',
      ['model/splitter.py', 'model/id_generator.py'],
      [('splitting', 'model/splitter.py Splitter.split_scenes'), ('fresh IDs', 'model/id_generator.py create_id')],
      'TLA+ spec of splitting; TLC enumerates divider sequences, replayed on the code, results validated', 'model_checking',
      'All sequences of up to 4 lines over divider levels and text in up to 2 scenes are enumerated; larger ones random. ' + TRUST,
      observe=['the novel after splitting']),
    P('C11', 'IDs stay unique and all references valid',
      'After any load, import, split or save, each chapter, scene, character, location, item, project note and project variable has an ID of its own, '
      'and every reference from chapters to scenes and from scenes to world elements names an existing element. '
      'New elements never take over the ID of an existing one.',
      ['inputs', 'histories'],
      'all files (also with dangling references), all imports and splits, in any sequence',
      'The tests see projects with contiguous IDs and no dangling references.',
      [YW7, 'model/id_generator.py', 'ods_r/ods_r_charlist.py', 'model/splitter.py'],
      [('fresh IDs', 'model/id_generator.py create_id'), ('dropping dangling references', YW7 + ' Yw7File.read')],
      'TLA+ invariant evaluated by TLC on every state of recorded histories', 'model_checking',
      'IntegrityFaults in Yw7.tla is evaluated in each state of recorded histories of loads, edits, imports, splits and saves. ' + TRUST,
      observe=['the novel in memory', 'the project file']),
    P('C12', 'Spreadsheet exports and imports agree row by row',
      'Character, location, item and scene lists contain one row per listed element in project order with the right value under each heading, and numbers that add up. '
      'Writing a list back sets each listed element to its row, orders the elements by rows, adds new rows as new elements (but never a scene that belongs to no chapter), and leaves everything else alone.',
      ['inputs', 'histories'],
      'all projects, all cell texts, all edits of cells, moved, added and deleted rows',
      'The tests compare one exported list each and import one edited list.',
      ['ods_w/ods_w_charlist.py', 'ods_w/ods_w_loclist.py', 'ods_w/ods_w_itemlist.py', 'ods_w/ods_w_scenelist.py',
       'ods_r/ods_r_charlist.py', 'ods_r/ods_r_loclist.py', 'ods_r/ods_r_itemlist.py', 'ods_r/ods_r_scenelist.py', 'ods_r/ods_parser.py'],
      [('rows', 'ods_w/ods_w_*.py'), ('reading rows', 'ods_r/ods_reader.py OdsReader.read')],
      'TLA+ spec of rows and row import; real spreadsheets projected and validated with TLC', 'model_checking',
      'Edits are made in the real spreadsheet\'s content.xml. ' + TRUST,
      observe=['content.xml of the spreadsheet', 'the project after the import']),
    P('C13', 'The cross reference lists every appearance, once, in order',
      'The cross reference of a project names, for every character, location, item and tag that is used, exactly the scenes and elements that use it, '
      'in order of appearance, with the right scene and chapter numbers. It names nothing else.',
      ['inputs'],
      'all projects: any relation between scenes, world elements and tags, any order and types',
      'The test compares the cross reference of the sample project.',
      ['model/cross_references.py', 'odt_w/odt_w_xref.py'],
      [('collecting', 'model/cross_references.py CrossReferences.generate_xref'), ('listing', 'odt_w/odt_w_xref.py')],
      'TLA+ spec of the cross reference; real documents projected and validated with TLC', 'model_checking',
      'Doc.tla computes the expected lines from the project. ' + TRUST,
      observe=['CrossReferences', 'content.xml of the _xref document']),
    P('C14', 'Text formatting survives the conversion in both directions',
      'Italics, bold, language switches, paragraphs, quotations, line structure, comments, footnotes and endnotes of a scene appear in the document on exactly the text they '
      'apply to, and formatting made in a document becomes exactly the corresponding project markup. '
      'Formatting never leaks to other text.',
      ['inputs'],
      'all texts over the markup alphabet in all nestings, and all document structures of paragraphs, spans, notes and styles',
      'The samples hold a few simple spans; nesting, overlap, line breaks within formatting and combined styles are combinatorial.',
      ['odt_w/odt_w_formatted.py', 'odt_w/odt_w_export.py', 'odt_w/odt_w_proof.py', 'odt_r/odt_parser.py', 'odt_r/odt_r_formatted.py', 'odt_r/odt_reader.py'],
      [('to ODT', 'odt_w/odt_w_formatted.py _convert_from_yw'), ('from ODT', 'odt_r/odt_parser.py')],
      'TLA+ semantics of the markup; TLC enumerates token strings, replayed both ways and validated', 'model_checking',
      'All token strings up to a length over the markup alphabet, plus random longer ones; meaning is (text, formats) runs per paragraph. ' + TRUST,
      observe=['content.xml', 'scene contents after import']),
    P('C15', 'A new project made from a manuscript or outline holds all of it',
      'A project created from a work in progress has one chapter per heading and one scene per section between dividers, one created from an outline one scene per scene heading; '
      'all text appears there, in order, once, with the formatting and comments it had. '
      'The new project is complete, readable, and internally consistent.',
      ['inputs'],
      'all documents of headings, paragraphs, dividers, comments, lists and quotations',
      'The tests create projects from two sample documents.',
      ['odt_r/odt_r_import.py', 'odt_r/odt_r_outline.py', 'converter/new_project_factory.py'],
      [('work in progress', 'odt_r/odt_r_import.py'), ('outline', 'odt_r/odt_r_outline.py')],
      'TLA+ spec of both imports; generated documents converted and validated with TLC', 'model_checking',
      'NewProject.tla maps the block sequence of a document to the expected project. ' + TRUST,
      observe=['the created project file']),
    P('C16', 'Producing a document never harms the previous one and leaves no debris',
      'If producing a document fails at any one point, the document that was there before is still there, complete, and an error is reported; after success the previous '
      'document is kept as backup. '
      'Neither way are temporary files left behind or the working directory changed, and the project file is not touched.',
      ['crash_points', 'fault_sequences', 'inputs'],
      'every file operation of an export failing, with and without an existing document and backup, all document kinds',
      'The tests never let an operation fail.',
      ['odf/odf_file.py', 'file/file_export.py'],
      [('temporary folder, backup and restore', 'odf/odf_file.py OdfFile.write')],
      'TLA+ model of the document protocol with faults; fault-injected real runs validated with TLC', 'fault_enumeration',
      'Faults at the file-operation level, implementation-independent. ' + TRUST,
      observe=['the document and its backup', 'the temporary folder', 'the working directory']),
    P('C17', 'Languages of a project and its documents agree',
      'A project\'s language settings survive saving; a missing language is replaced by the system\'s, an implausible one by "none", whatever system the program runs on, and every '
      'document is written for that language. '
      'Language switches within the text appear in the document as such, and a saved project declares each language used in its scenes, once, also those added since it was read.',
      ['inputs', 'histories'],
      'all language codes (valid, invalid, missing), all sets of text languages, all legacy encodings, all system locales, all histories',
      'The samples have one language and two switches, and the tests run on one system.',
      ['model/novel.py', YW7, 'odt_w/odt_writer.py', 'odt_w/odt_w_formatted.py', 'odt_r/odt_parser.py'],
      [('locale check', 'model/novel.py Novel.check_locale'), ('languages used', 'model/novel.py Novel.get_languages')],
      'TLA+ spec of locale and languages (MC_Lang), its cases replayed on systems of many locales; histories and documents validated with TLC', 'model_checking',
      'System locales are set by environment variables for a process of its own. ' + TRUST,
      observe=['Novel.languageCode/countryCode/languages', 'project variables', 'styles.xml and content.xml']),
    P('C18', 'Scene start and duration survive every change',
      'The start of a scene - date and time, or day and time, or none - and its duration survive saving and reading, and a changed start replaces the old one '
      'completely whatever form the old one had. A file with a defective or incomplete start is still read.',
      ['inputs', 'histories'],
      'all stored forms (complete, partial, defective, mixed) with all new values, in all sequences',
      'The samples hold a few complete dates and are saved once.',
      [YW7],
      [('start codec', YW7 + ' read/_build_element_tree')],
      'TLA+ model of the start codec checked exhaustively with TLC, its cases replayed; histories validated', 'model_checking',
      'MC_Codec explores every prior form with every new value, repeatedly; the pairs are replayed on real files. ' + TRUST,
      observe=['Scene.date/time/day/lasts*', 'the project file']),
    P('C19', 'Word and letter counts follow their definition everywhere',
      'The word count of a scene is the number of its words and the letter count that of its characters, both without comments and formatting codes, with dashes separating words. '
      'They are the same however the text came into the scene, the project file never keeps outdated counts, and the totals shown are sums of the counts shown.',
      ['inputs', 'histories'],
      'all texts over letters, spaces, dashes, line breaks, codes, comments, however they come into the project',
      'The tests see the counts of sample scenes only.',
      ['model/scene.py', 'ods_w/ods_w_scenelist.py', 'file/file_export.py', YW7],
      [('counting', 'model/scene.py Scene.sceneContent setter'), ('totals', 'file/file_export.py _get_sceneMapping')],
      'TLA+ definition of words and letters; TLC enumerates texts, real counts validated', 'model_checking',
      'All token strings up to a length over an alphabet of separators and codes, plus random texts. ' + TRUST,
      observe=['Scene.wordCount/letterCount', 'scene list columns', 'the project file']),
    P('C20', 'Settings and options persist from session to session',
      'Whatever settings (texts) and options (yes/no) an application has written, the next session with the same names reads back, exactly. '
      'Reading keeps the set of names, leaves values alone that are missing or not understandable, and never fails; configurations do not influence each other.',
      ['inputs', 'histories'],
      'all names and values (any characters), all files including hand-edited ones, all sequences of set, change, write and read',
      'There is no test with special characters, missing or defective entries, or several sessions.',
      ['config/configuration.py'],
      [('INI file', 'config/configuration.py Configuration.read/write')],
      'TLA+ model of sessions checked exhaustively with TLC; recorded sessions validated', 'model_checking',
      'MC_Config proves persistence within small constants; JudgeConfig validates recorded sessions. ' + TRUST,
      observe=['Configuration.settings/options', 'the INI file']),
    P('C21', 'Clean-up and reset functions do exactly what they promise',
      'Resetting custom variables and removing language markup removes exactly the values and markings meant, from the whole project, permanently, and changes nothing else. '
      'They report whether anything was found.',
      ['inputs', 'histories'],
      'all projects with any combination of custom variables and language marks, before and after saving',
      'There is no test of these functions.',
      [YW7, 'yw/yw7_purge.py'],
      [('reset', YW7 + ' Yw7File.reset_custom_variables'), ('purge', 'yw/yw7_purge.py')],
      'TLA+ spec of the clean-up actions; recorded runs validated with TLC', 'model_checking',
      'Purge.tla gives the project after each function. ' + TRUST,
      observe=['the novel and the file after the function']),
    P('C22', 'The application never shows or writes a project other than the open one',
      'Opening, closing and reopening projects in the main window keeps the window\'s state consistent: a project is open exactly if it was read without error, '
      'closing forgets it, a failed opening is reported and leaves no half-opened project, and a locked project is announced as such. '
      'Only saving writes, and only to the open project.',
      ['histories', 'fault_sequences'],
      'all sequences of opening, reloading and closing of good, missing, defective and locked projects',
      'There is no test of the window.',
      ['ui/main_tk.py', 'ui/ui_tk.py'],
      [('state', 'ui/main_tk.py MainTk.open_project/close_project/select_project')],
      'TLA+ model of the window\'s state; recorded sessions validated with TLC', 'model_checking',
      'The window toolkit is replaced by a recording stand-in because the sandbox has no display. ' + TRUST,
      observe=['the window\'s fields and messages']),
    P('C23', 'Separate data files hold exactly the characters, locations and items',
      'The XML data files made of a project are well-formed and hold exactly its characters, locations, and items, each once, in order, with all their details, as they are in the project at '
      'that time, whatever was exported before. Making them changes neither the project nor any other file, and a failure is reported.',
      ['inputs', 'histories', 'fault_sequences'],
      'all projects, all sequences of changes and exports, with the same exporting object or a new one',
      'There is no test of the data files.',
      ['yw/data_files.py', YW7],
      [('subtrees', 'yw/data_files.py DataFiles._write_element_tree')],
      'TLA+ model of project and data files; recorded histories validated with TLC', 'model_checking',
      'Data.tla: the files read back to the sections of the project. ' + TRUST,
      observe=['the three XML files', 'all other files in the folder']),
    P('C24', 'Custom fields of applications are kept like any other data',
      'What an application keeps under names it has declared for the project, chapters, scenes, characters, locations, items or notes is read, saved and read again exactly; '
      'an emptied field leaves nothing behind, and fields of the project, its chapters and scenes that nobody declared stay as they are. '
      'Resetting clears all declared fields, permanently, reports whether there were any, and changes nothing else.',
      ['inputs', 'histories'],
      'all sets of declared names, all values and prior states of the file, all sequences of setting, emptying, saving, rereading and resetting',
      'No test declares custom fields.',
      [YW7, 'yw/yw7_purge.py', 'file/file.py'],
      [('declared names', 'file/file.py File.*_KWVAR'), ('codec', YW7 + ' *_KWVAR loops'), ('reset', 'yw/yw7_purge.py reset_custom_variables')],
      'TLA+ model of one element under all short histories checked with TLC, replayed on elements of every kind; recorded histories validated', 'model_checking',
      'Custom.tla gives what is kept under each name; the rest of the project is judged by Yw7.tla. ' + TRUST,
      observe=['kwVar of all elements', 'the project file']),
    P('C25', 'No translation of a message is lost or given to another message',
      'The template holds exactly the messages marked in the source code, each once; updating a language file gives it exactly the template\'s messages, each with the translation it had before '
      '(or, if wanted, the one in the shared dictionary, which in turn gets all translations of the file), and tells whether all are translated. '
      'A compiled catalogue makes the program show exactly the translations of its own file, and failures while writing lose nothing and are not concealed.',
      ['inputs', 'histories', 'fault_sequences'],
      'all messages and translations, file layouts, and sequences of changing sources, scanning, translating, updating, and compiling several languages',
      'There is no test of the translation tools.',
      ['../pgettext.py', '../translations.py', '../msgfmt.py'],
      [('scan', '../pgettext.py PotFile'), ('update', '../translations.py Translations'), ('compile', '../msgfmt.py make')],
      'TLA+ model of sources, template, language files, dictionary, catalogues checked with TLC and replayed; recorded histories validated', 'model_checking',
      'MC_Translate proves that shared translations survive; JudgeTranslate validates each run of a tool. ' + TRUST,
      observe=['the POT, PO, JSON, and MO files', 'gettext look-ups']),
    P('C26', 'A template export writes every element once, with the right template',
      'Whatever templates and filters an application defines, its export consists of the header, the chapters with their scenes in order, the characters, locations, items, and project notes, and the footer, '
      'every accepted element exactly once with the template its type, level, flags, and position call for, or not at all if there is none, with every known placeholder replaced by the element\'s data '
      'and the chapter and scene numbers and totals counting only what belongs to the novel. A document that was there before becomes the backup, and is still there after a failure.',
      ['inputs', 'fault_sequences'],
      'all projects, sets of templates with arbitrary text and placeholders, filters, and failing file operations',
      'There are no tests of template exports except those of a few built-in documents, whose templates never combine most of the rules.',
      ['file/file_export.py', 'file/filter.py', '../../docs/specifications_for_file_export.md'],
      [('write', 'file/file_export.py FileExport.write'), ('filter', 'file/filter.py Filter')],
      'TLA+ specification of template exports; cases enumerated by TLC and random exports replayed and judged by TLC', 'model_checking',
      'MC_Template proves order, filtering, numbering and totals for all small chapters under all choices of templates; JudgeTemplate compares each written file with the specified text. ' + TRUST,
      observe=['the text of the exported file and its backup']),
    P('C27', 'Opening a document starts one viewer on exactly that document',
      'When a document is opened, exactly one of the desktop\'s ways of opening is used, the first one the system offers, with the document\'s path as its only argument, whatever characters that path contains. '
      'Nothing in the path is executed or expanded, and a system without any way of opening causes no failure.',
      ['inputs'],
      'all paths, and all combinations of ways of opening that are missing, work, or refuse',
      'There is no test: opening needs a desktop, and paths that mean something to a shell are never tried.',
      ['file/doc_open.py'],
      [('open', 'file/doc_open.py open_document')],
      'TLA+ specification of the ways of opening; systems and names enumerated by TLC, and random paths, replayed with stand-in programs and judged by TLC', 'model_checking',
      'MC_Launch proves that at most one viewer is started on exactly that document; JudgeLaunch compares what the stand-ins recorded. ' + TRUST,
      observe=['programs started with their arguments', 'files that come into being']),
    P('C28', 'Every user interface passes on outcomes, questions and answers unaltered',
      'Every outcome is shown as what it is, a failure as a failure and a success as a success, with its full text, and replaces the one before; warnings and questions appear exactly once with their full text. '
      'The program acts on the answer the user gave, and only the silent interface, which has nobody to ask, agrees by itself. '
      'A window that is closed and opened again has the size it was closed with.',
      ['inputs', 'histories'],
      'all messages (any characters, leading and repeated markers, line breaks) and all sequences of messages, warnings, questions with their answers, resizing, closing and reopening, on each of the five interfaces',
      'There is no test of any user interface except a stub in the test folder.',
      ['ui/ui.py', 'ui/ui_cmd.py', 'ui/ui_mb.py', 'ui/ui_tk.py', 'ui/main_tk.py'],
      [('silent', 'ui/ui.py Ui'), ('console', 'ui/ui_cmd.py UiCmd'), ('message boxes', 'ui/ui_mb.py UiMb'), ('window', 'ui/ui_tk.py UiTk'), ('application', 'ui/main_tk.py MainTk messages, quit')],
      'TLA+ state machine of the five interfaces checked with TLC; its behaviours and random sessions replayed on a recording toolkit and judged by TLC', 'model_checking',
      'MC_Report enumerates sessions of up to five actions; Report.tla says what each shows, and JudgeReport compares that with what the recording toolkit and the console received. ' + TRUST,
      observe=['message boxes, labels, console output', 'answers returned', 'window size']),
    P('C29', 'Saved project files keep the form that yWriter accepts',
      'Whatever project is saved, and however often, the file is a well-formed document in UTF-8 that declares this in its first line and nowhere else. '
      'Every title, description, note, tag list and text stands in CDATA sections, whatever characters it contains, and a project without chapters has a list of chapters that is empty but not abbreviated.',
      ['inputs', 'histories'],
      'all projects (any characters in any text, with and without chapters, scenes and elements), all original forms of the file, all sequences of load, edit and save',
      'The samples are well-behaved texts in complete projects.',
      [YW7],
      [('form', YW7 + ' _postprocess_xml_file/_write_element_tree')],
      'TLA+ specification of the file form; recorded histories judged by TLC', 'model_checking',
      'JudgeYw7 judges the form of every file saved in recorded histories of load, edit and save (Yw7.tla FormFaults). ' + TRUST,
      observe=['the bytes of the project file']),
]

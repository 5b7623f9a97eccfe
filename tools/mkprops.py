#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                               mechanism=[dict(zip(("name", "where"), m)) for m in mech],
                               observe_at=list(observe), hook_needed=hook)))

p("P01", "Trees stay well-formed under every history of edits",
  "After every edit of a tree (creating, removing, re-attaching and shifting nodes, creating and removing empty nodes and multi-word tokens, flattening, moving nodes between trees), whatever edits, refused edits and half-finished iterations came before, its words are numbered 1..n in word order without gaps, every word is reachable from the technical root through exactly one parent, and parent, children, siblings, descendants, previous/next-node and root all describe that one tree. "
  "Empty nodes stay sorted and uniquely numbered between the words they stand between, each word belongs to at most one multi-word token whose word list and the words' own back-references agree, and no removed word stays listed in the tree, in the enhanced dependencies of the remaining nodes, or in a multi-word token. "
  "Derived relations (ancestors, siblings, neighbours, nodes preceding or following, position and depth relative to the parent, non-projectivity, the smallest treelet of given nodes) agree with that tree. An iteration over nodes, children or descendants that was started before an edit still visits what it promised at its start.",
  ["histories", "schedules", "inputs"], "all finite histories of edit operations by any number of interleaved clients (edits, paused iterators, refused edits) on all initial trees",
  "The tests check a handful of single edits on fixed trees; corruption needs combinations (non-projective subtree shifted, then a deletion with rehang, next to empty nodes or a multi-word token).",
  ["udapi/core/node.py", "udapi/core/root.py", "udapi/core/mwt.py"],
  [("parent setter keeps children lists sorted", "udapi/core/node.py Node.parent"), ("renumbering on removal", "udapi/core/node.py Node.remove"),
   ("in-place permutation on shift", "udapi/core/node.py Node._shift_before_ord"), ("moving nodes across trees", "udapi/core/root.py Root.steal_nodes"),
   ("multi-word token bookkeeping", "udapi/core/mwt.py MWT.remove, udapi/core/root.py Root.create_multiword_token")],
  [("word order list", "all words of a tree in order", "Root"), ("children lists", "ord-ordered children", "Node")],
  ["Node.ord/parent/children/descendants/prev_node/next_node", "Root.descendants/empty_nodes/multiword_tokens/token_descendants"])

p("P02", "Every tree edit has exactly its documented effect and no other",
  "Each edit of a tree turns the tree into exactly the tree its documentation describes: a shift puts the node (with or without its subtree, in its original internal order) directly before or after the reference node or reference subtree and keeps the relative order of everything else; a removal deletes the node with its subtree or re-attaches its children to its parent; a re-attachment changes one parent; a creation appends one last word or one empty node directly after or before a word; moving words to another tree appends them there in order, keeping the dependencies among them. "
  "Nothing else changes: attributes, dependencies, order, multi-word tokens and empty nodes of all other nodes, and of all other trees, stay as they were.",
  ["histories", "inputs"], "all histories of edits on all trees (projective or not, with empty nodes and multi-word tokens), for all parameter combinations of the edits",
  "Tests exercise a few shifts on small trees; the three different code paths for moving (single node, contiguous subtree, subtree with gaps) times reference position times parameters times previous edits cannot be sampled by hand.",
  ["udapi/core/node.py", "udapi/core/root.py"],
  [("shift_* family", "udapi/core/node.py Node._shift_before_ord"), ("remove(children=...)", "udapi/core/node.py Node.remove"),
   ("steal_nodes/flatten", "udapi/core/root.py"), ("create_empty_child ord choice", "udapi/core/node.py Node.create_empty_child")],
  [], ["the whole tree as seen through the public API and as CoNLL-U text"])

p("P03", "A refused or failed operation leaves no trace",
  "An operation that is refused with an exception (a cycle, an own parent, a parent in another tree, no parent, an empty node as parent, an impossible shift, words of several trees, an invalid or duplicate zone, a duplicate entity name, a mention whose head is outside of its words, a value of unsupported type, a first look at coreference annotation that cannot be decoded, and so on) leaves every document involved exactly as it was before the call. "
  "Later operations and the stored file are the same as if the refused operation had never been tried.",
  ["histories", "fault_sequences"], "every refused operation at every point of every edit history",
  "The tests check that an exception is raised, once per kind and on one tree, not that the state is unchanged, and never continue working afterwards.",
  ["udapi/core/node.py", "udapi/core/root.py", "udapi/core/bundle.py", "udapi/core/coref.py", "udapi/core/dualdict.py", "udapi/core/document.py"],
  [("check-before-write order inside setters", "Node.parent, Bundle.check_zone, CorefMention.words, CorefEntity.eid, DualDict.set_mapping")],
  [], ["whole-document snapshot through the public API", "CoNLL-U text"])

p("P04", "Looking at a document never changes it",
  "Reading any part of a document at any moment (enhanced dependencies, features, miscellaneous attributes, sentence ids and addresses, texts, coreference, lists of nodes with any of their call options, tree drawings, printing, lookups of missing keys) never changes what any later read, edit or stored file yields: a history with reads inserted anywhere ends in the same document and the same CoNLL-U text as the history without them. "
  "In particular it makes no difference whether and when lazily decoded information is first looked at.",
  ["histories", "schedules"], "all edit histories with all placements of reads by other clients",
  "Lazy decoding makes every read a potential state change; tests read once at a fixed moment and never compare with a run that does not read.",
  ["udapi/core/node.py", "udapi/core/dualdict.py", "udapi/core/root.py", "udapi/core/document.py", "udapi/core/coref.py"],
  [("lazy enhanced dependencies", "udapi/core/node.py Node.deps/raw_deps"), ("lazy attribute maps", "udapi/core/dualdict.py DualDict"),
   ("cached sentence id", "udapi/core/root.py Root.sent_id"), ("lazy coreference", "udapi/core/document.py Document._load_coref"), ("callable node lists", "udapi/core/node.py ListOfNodes")],
  [], ["CoNLL-U text and full snapshot of two runs that differ in reads only"])

p("P05", "Attribute maps behave like one dictionary whatever view is used",
  "Features, miscellaneous attributes (of words, empty nodes and multi-word tokens) and the other attributes of mentions behave like one plain dictionary seen through two views: after any interleaving of writes and reads through the string view and the dictionary view, both views show the result of the last writes, missing names read as an empty string, names set to nothing are gone, an empty map prints as an underscore (an empty string for mention attributes), and the string view lists names in case-insensitive alphabetical order once the map was changed through the dictionary view and verbatim what was assigned otherwise. "
  "A copy, and a map assigned from another map or dictionary, is independent of its origin.",
  ["histories"], "all interleavings of reads and writes through both views by several clients, including copies and assignment from other maps",
  "The string and the dictionary are synchronised lazily in both directions; staleness shows only after particular sequences of reads and writes.",
  ["udapi/core/dualdict.py", "udapi/core/feats.py", "udapi/core/coref.py", "udapi/core/node.py", "udapi/core/mwt.py"],
  [("lazy synchronisation", "udapi/core/dualdict.py DualDict"), ("mention attribute encoding", "udapi/core/coref.py OtherDualDict")],
  [], ["str(), dict(), len(), in, iteration, [] of the map", "FEATS/MISC columns of the stored file"])

p("P06", "CoNLL-U survives load and store, however the bytes are delivered",
  "Loading a valid CoNLL-U text and storing it gives the same text (comments, multi-word tokens, empty nodes, all ten columns, sentence, paragraph and document marks included), and storing and loading again gives the same document. "
  "The loaded document does not depend on how the input arrives: from a file, a compressed file, standard input, an open file handle or a string, in whatever chunk sizes the stream delivers it, and whether sentences are loaded one by one or all at once; the same holds for the other text readers of the library. "
  "Changes made to sentence ids, document and paragraph marks, texts and comments are stored, and settings for leaving ids, texts or empty sentences out leave out exactly those.",
  ["inputs", "schedules", "configurations"], "all valid inputs, all chunkings and short reads of the stream, all input channels and both loading modes",
  "Tests load three fixed files from local disk, where a read never comes back short.",
  ["udapi/block/read", "udapi/block/write/conllu.py", "udapi/core/files.py", "udapi/core/document.py"],
  [("fast loader vs tree-by-tree loader", "udapi/block/read/conllu.py read_trees/read_tree"), ("input channels", "udapi/core/files.py Files.next_filehandle"), ("writer", "udapi/block/write/conllu.py")],
  [], ["CoNLL-U text", "document snapshot"])

p("P07", "Readers deliver every sentence exactly once, in order, properly grouped",
  "For any sequence of input files and any reader settings, every sentence of the input that the settings select (filter on sentence ids, limit on the number of documents, zone settings) is delivered exactly once and in order, no document is delivered after the reader reported that it has finished, and the reader does finish. "
  "Sentences are grouped into documents and bundles as the settings say (one document per file, all files merged, a given number of bundles per document, a new document at each document mark), trees of one sentence in several zones share one bundle, and document names, file names and ids are those of the input.",
  ["configurations", "inputs", "histories"], "all file sequences (empty files, missing final blank line, document marks, several zones) times all combinations of reader settings times several readers in one scenario",
  "Tests use one file with two settings; the loader has a fast and a slow path, a look-ahead buffer and four stopping rules that interact.",
  ["udapi/core/basereader.py", "udapi/core/files.py", "udapi/block/read/conllu.py", "udapi/block/util/split.py", "udapi/block/read/sentences.py"],
  [("look-ahead buffer and fast path", "udapi/core/basereader.py BaseReader.process_document/try_fast_load"), ("file iteration", "udapi/core/files.py"), ("regrouping", "udapi/block/util/split.py")],
  [], ["sequence of documents delivered by a reader"])

p("P08", "Broken input never passes silently",
  "If reading the input fails in any way (a file that is missing or becomes unreadable, a device error in the middle of a file, a truncated or corrupted compressed file, bytes that are not valid in the declared encoding, an impossible head or a cycle, or, in strict mode, a line with missing columns), the failure is reported as an exception to the caller and never turned into a shorter or altered document that looks complete. "
  "A reader that failed leaves the process usable: the next load of good input gives the correct document.",
  ["fault_sequences", "inputs"], "all positions and kinds of input faults in all input channels, followed by further loads",
  "Tests never see an input error.",
  ["udapi/core/files.py", "udapi/core/basereader.py", "udapi/block/read/conllu.py"],
  [("exceptions of the I/O layer are not swallowed", "udapi/core/basereader.py, udapi/core/files.py"), ("structural checks", "udapi/block/read/conllu.py")],
  [], ["exception or complete document"])

p("P09", "What a writer reports as stored is stored completely, in the right place",
  "When storing a document returns without an exception, the designated output (the given file, the file of the same position in the list, the file named by the document or derived from the file it was loaded from, standard output, or the given handle) contains exactly the whole text of that document (or, for standard output, of all documents so far in order) and no other file has been touched; a lack of output names or of disk space, a failing device or a closed pipe is reported as an exception. "
  "A later failure, or a crash of the process at any moment, leaves the files of documents stored earlier complete and unchanged.",
  ["fault_sequences", "crash_points", "configurations"], "all writer settings times document sequences times positions of disk errors, short writes, full disk and process crash",
  "Tests store to a healthy local disk and never look at partial failures.",
  ["udapi/core/basewriter.py", "udapi/core/files.py", "udapi/block/write", "udapi/core/document.py"],
  [("redirection of standard output per document", "udapi/core/basewriter.py"), ("flush and close on completion", "udapi/core/basewriter.py after_process_document")],
  [], ["bytes that reached the simulated disk"])

p("P10", "Loading, storing and running leave the process as they found it",
  "After any load, store, print or scenario, whether it succeeded or failed at any point, standard output is again what it was before, automatic garbage collection is enabled or disabled as before, the working directory, the environment, the recursion limit and the state of the global random generator are unchanged, and output printed by the program afterwards reaches the program's own standard output. "
  "This holds also for several readers, writers and scenarios used alternately in one process.",
  ["fault_sequences", "histories"], "all sequences of loads, stores and scenarios with faults injected at any point",
  "Writers work by replacing the process-wide standard output, readers by switching off garbage collection; tests never fail in the middle.",
  ["udapi/core/basewriter.py", "udapi/core/basereader.py", "udapi/core/document.py", "udapi/core/run.py", "udapi/block/write/textmodetrees.py"],
  [("restoring standard output", "udapi/core/basewriter.py after_process_document"), ("restoring garbage collection", "udapi/core/basereader.py process_document")],
  [], ["sys.stdout, gc.isenabled(), os.getcwd(), os.environ, random state"])

p("P11", "A scenario runs every block on every document, once and in order",
  "Running a scenario calls every block's start hook once before any document is processed, then, document by document, passes the same document through all blocks in the order of the scenario until all readers have finished, and finally calls every end hook once; within a document each block visits each bundle, tree, node, empty node and coreference entity it asks for exactly once and in order, only in the selected zones and non-skipped trees, even when it edits the tree meanwhile. "
  "An exception in any block stops the scenario and reaches the caller, with no further block or document being processed.",
  ["schedules", "configurations", "fault_sequences"], "all scenarios (several readers of different length, missing reader, several writers) and all points of failure",
  "Tests run no scenario with several readers, zones or failures.",
  ["udapi/core/run.py", "udapi/core/block.py"],
  [("scheduler loop", "udapi/core/run.py Run.run_blocks"), ("dispatch to hooks", "udapi/core/block.py Block.process_document")],
  [], ["recorded sequence of hook calls"])

p("P12", "The command line reports failure by exit status and success by full output",
  "When the command-line program ends with status zero, everything its blocks wrote has been handed over completely to standard output and the output files (unless the consumer of the output went away); when any block, input or output fails, it ends with a nonzero status and a message on standard error. "
  "A consumer that closes the pipe early ends the program quietly.",
  ["fault_sequences", "crash_points", "configurations"], "all scenarios times positions of faults on standard input, standard output and files",
  "The program switches off the normal interpreter exit; tests run it only on success.",
  ["bin/udapy", "udapi/core/run.py", "udapi/core/basewriter.py"],
  [("custom exit path", "bin/udapy atexit handlers and excepthook")],
  [], ["exit status, bytes on simulated stdout/stderr, files"])

p("P13", "The outcome depends only on the document and the parameters",
  "Processing a document with any block gives the same document and the same printed output on every run: it does not depend on hash seeds, memory addresses, set or dictionary iteration order, on documents, blocks or scenarios processed earlier or alternately in the same process, or on whether the document was built, loaded, or copied by storing and loading. "
  "Independent documents and block instances never influence each other. (Document-wide entity numbering with GRP counts documents per process by definition; a block's use of the global random generator depends on that generator's state.)",
  ["schedules", "histories", "configurations"], "all blocks, all documents, all hash seeds and all interleavings of independent clients in one process",
  "Dependence on hash order or on leftovers of earlier documents is invisible in a single run in a fresh process with a fixed hash seed.",
  ["udapi/core", "udapi/block"],
  [("no module-level state", "udapi/block, udapi/core"), ("ordered containers", "udapi/core/coref.py, udapi/core/node.py")],
  [], ["document text and printed output of paired runs"])

p("P14", "Bundles, zones and ids stay unique, consistent and found again",
  "After any history of creating, adding, removing and renaming bundles, trees and zones, bundles of a document are numbered consecutively in document order, zone names within a bundle are valid and unique, each tree is found again in its bundle by its zone, and the id of every tree, node address and stored sentence id is its bundle's id plus its zone; word order across bundles follows the order of bundles. "
  "Storing and loading gives back the same bundles, zones and ids.",
  ["histories"], "all histories of bundle, tree, zone and id operations by several clients",
  "Ids are cached at several levels; tests check ids of one freshly loaded file.",
  ["udapi/core/bundle.py", "udapi/core/document.py", "udapi/core/root.py", "udapi/core/node.py"],
  [("cached sentence id", "udapi/core/root.py"), ("numbering", "udapi/core/bundle.py remove, udapi/core/document.py create_bundle")],
  [], ["Bundle.number, bundle_id, get_tree, Root.sent_id/zone/address, Node.address/precedes"])

p("P15", "Coreference links stay mutually consistent under every edit history",
  "After any history of creating, changing and deleting entities, mentions, spans, heads, bridging and split-antecedent links, every mention's words know the mention and the words that are not its words do not, the head is one of the words, words and mentions are in document order, every mention is listed by exactly its own entity and every entity is found under its name, and no deleted mention or entity is left in any list. The same holds for a document whose faulty coreference annotation was loaded leniently, some mentions being deleted. "
  "A mention's span and its words always describe the same set of words.",
  ["histories"], "all histories of coreference edits by several clients, including refused ones",
  "Redundant cross-references in both directions; tests make five edits on one document.",
  ["udapi/core/coref.py", "udapi/core/document.py", "udapi/core/node.py"],
  [("mention words/head/span/entity setters", "udapi/core/coref.py CorefMention"), ("entity lists", "udapi/core/coref.py CorefEntity"), ("span conversion", "udapi/core/coref.py span_to_nodes/nodes_to_span")],
  [], ["Node.coref_mentions, CorefEntity.mentions, Document.eid_to_entity/coref_mentions"])

p("P16", "Coreference annotation survives storing and loading",
  "Storing a document with coreference and loading it again gives the same entities, types, mentions (spans including discontinuous ones, heads, other attributes), bridging links and split antecedents, and storing the loaded document again gives the same file; storing does not change the annotation in memory. "
  "The brackets are stored in the documented order (closing before opening ones, longer spans opened first and closed last, single words after all opening brackets or, if there is none, before the closing ones), all parts of a discontinuous mention have the same attributes, ids are written per document with GRP, and loaded entities and mentions are in the order of the text. "
  "Any moment of storing within a history of edits, and any number of intermediate stores, lead to the same result.",
  ["histories", "inputs"], "all coreference annotations reachable by edit histories, with stores and reloads at any point",
  "Tests round-trip one document without discontinuous mentions after edits.",
  ["udapi/core/coref.py", "udapi/core/basewriter.py"],
  [("encoding to attributes", "udapi/core/coref.py store_coref_to_misc"), ("decoding", "udapi/core/coref.py load_coref_from_misc")],
  [], ["entities and mentions of the reloaded document", "CoNLL-U text"])

p("P17", "A remote parser answer is applied whole or not at all",
  "When a document is processed by the remote parsing service, each sentence receives the analysis the service returned for that sentence; if the service is unreachable, answers with an error status, an incomplete or malformed answer, or an analysis that does not fit the sentences sent, an exception is raised and the document is left as it was (where each sentence is sent in a request of its own, the sentences answered before stay processed, the others are as they were, and no text or tree is lost). "
  "Texts and words sent to the service are exactly those of the document, and multi-word tokens, empty nodes and ids that are to be kept are kept.",
  ["fault_sequences", "inputs"], "all documents times all network faults and server answers at any request",
  "There is no network in the tests; this code is not tested at all.",
  ["udapi/tool/udpipeonline.py", "udapi/block/udpipe/base.py"],
  [("request/response", "udapi/tool/udpipeonline.py perform_request"), ("grafting the answer", "udapi/tool/udpipeonline.py tag_parse_tree/tokenize_tag_parse_tree/process_document")],
  [], ["bytes received by the simulated server", "document snapshot"])

p("P18", "A downloaded resource is complete or absent",
  "A resource file that the library needs is downloaded on first use and reused afterwards; whenever the library hands out the path of such a file, the file is the complete resource the server holds. "
  "If a download fails or the process dies at any moment, no partial file is taken for the resource later: the next use downloads it again or fails with an exception.",
  ["fault_sequences", "crash_points"], "all positions of network failure, disk error and process crash during a download, all sequences of later attempts, concurrent downloaders",
  "Tests have no network and no crashes.",
  ["udapi/core/resource.py"],
  [("download into the data directory", "udapi/core/resource.py require_file")],
  [], ["content of the file at the returned path"])

p("P19", "Splitting, joining and moving sentences conserves their content",
  "Blocks that move content between sentences and documents (util.SplitSentence, util.JoinSentence, segment.Merge, segment.Simple, tokenize.*, util.Split, util.ResegmentGold, Root.steal_nodes) lose, duplicate and reorder nothing, "
  "in whatever order they are applied: the sequence of words and empty nodes with all their attributes and MISC (except the mark that triggered the operation), the multi-word tokens, coreference, and every basic or enhanced dependency "
  "whose both ends are in one sentence afterwards are as before; a word whose head is in another sentence hangs on the root; the boundaries are exactly the requested ones; sentence text, ids, bundle and word numbers agree with the new sentences; "
  "sentences and zones not concerned are untouched (comments and marks of a sentence appended to another one are dropped with its boundary). "
  "A request that cannot be fulfilled (no previous sentence, word out of range, several zones, missing parameters, text already tokenized, texts that differ) raises an exception and changes no sentence. "
  "Segmented text is the original text, tokenized words with their spacing restore it, and every resulting document or part can be stored and loaded unchanged, with the format of its coreference annotation.",
  ["histories", "inputs", "restarts"], "all sequences of splits, joins, merges and restarts on all documents, in any order",
  "Tests do not cover any of these blocks; moving combines re-parenting, renumbering, empty nodes and multi-word tokens of two trees.",
  ["udapi/core/root.py", "udapi/block/util/splitsentence.py", "udapi/block/util/joinsentence.py", "udapi/block/util/split.py", "udapi/block/util/resegmentgold.py", "udapi/block/segment", "udapi/block/tokenize"],
  [("steal_nodes", "udapi/core/root.py"), ("sentence split/join blocks", "udapi/block/util"), ("document split", "udapi/block/util/split.py"), ("segmentation and tokenisation", "udapi/block/segment, udapi/block/tokenize")],
  [], ["content of all sentences of the document"])

p("P20", "Blocks editing coreference do what they are for and lose nothing else",
  "The blocks which edit coreference annotation - corefud.RemoveNoCorefEntities, Delete, MergeSameSpan, FixInterleaved, FixParentheses, IndexClusters, GuessSpan, MoveHead, FixEntityAcrossNewdoc, Link2Cluster, FixCorefUD02 and the marking blocks - "
  "do exactly what they are documented for, in whatever order they are applied within a history of edits, stores and reloads: entities to be removed are gone with all their mentions and links to them, of mentions with the same words exactly one is left, "
  "merging mentions loses no word and touches no mention that overlaps with none, neighbouring parentheses are added, clusters are renumbered from the given start, heads move to the highest word of a treelet, ids are unique per newdoc, linked nodes form one entity, the marked words are those of the pairs asked for, "
  "deleting empty nodes or words leaves the other words of their mentions; everything else in the document stays as it was, no block fails on a document with any such annotation. "
  "After each of them (and after removing nodes) entities, mentions and words refer to each other consistently, and if the file format can hold the mentions, the stored document holds them and loading it gives the same annotation.",
  ["histories", "inputs", "restarts"], "all sequences of coreference blocks, edits, stores and reloads on all documents with coreference annotation",
  "Tests apply two of these blocks to one document each.",
  ["udapi/block/corefud", "udapi/core/coref.py", "udapi/core/root.py"],
  [("blocks", "udapi/block/corefud"), ("removed words", "udapi/core/root.py _forget_nodes"), ("storing", "udapi/core/coref.py store_coref_to_misc")],
  [], ["entities and mentions", "CoNLL-U text"])

p("P21", "Blocks that change the tokens of sentences do exactly what they are for",
  "Blocks that create, split, join or delete tokens within a sentence (ud.AddMwt and its language variants, ud.RemoveMwt, ud.JoinAsMwt, ud.FixMwtSpace, ud.JoinToken, ud.SplitUnderscoreTokens, ud.SetSpaceAfter, ud.SetSpaceAfterFromText, ud.GoeswithFromText, ud.ComplyWithText) "
  "do exactly what they are documented for, in whatever order they are applied within a history of edits, stores and reloads: a word split into several keeps its annotation, its children and its place (new words are next to it, within the same multi-word token), joined words keep the children of both, "
  "multi-word tokens are added and removed with the text of the sentence unchanged, SpaceAfter ends up at the token before the missing space, and no other word, empty node, dependency, feature, MISC value or comment changes. "
  "ud.ComplyWithText deletes only punctuation, marks what it adds, keeps the previous forms and the previous text, and if it is allowed to fix the text, the text is that of the tokens afterwards. "
  "Annotation blocks of ud, transform, util and mwe which are not for changing tokens (one-off conversions of single treebanks such as ud.Google2ud, ud.id.FixGSD or ud.de.FixHDT are not meant here) leave number, order and forms of tokens and empty nodes, multi-word tokens, spaces and texts of sentences as they are. "
  "What a block does with a sentence does not depend on the sentences it has processed before: in any document, and used for any number of documents, one block gives each sentence the same result as a fresh block applied to that sentence alone. "
  "After each block the tree is well-formed and the document can be stored and loaded unchanged.",
  ["histories", "inputs", "restarts"], "all sequences of such blocks, edits, stores and reloads on all documents, with blocks used repeatedly",
  "Tests run a few of these blocks on one document each, and none of them twice.",
  ["udapi/block/ud", "udapi/block/transform", "udapi/block/util", "udapi/block/mwe", "udapi/core/mwt.py", "udapi/core/root.py"],
  [("multi-word tokens", "udapi/block/ud/addmwt.py, removemwt.py, joinasmwt.py, fixmwtspace.py"), ("splitting and joining", "udapi/block/ud/splitunderscoretokens.py, jointoken.py, goeswithfromtext.py"),
   ("text and spaces", "udapi/block/ud/complywithtext.py, setspaceafter.py, setspaceafterfromtext.py"), ("annotation blocks", "udapi/block/ud, udapi/block/transform")],
  [], ["nodes, multi-word tokens and text of each sentence"])

p("P22", "A block carries nothing over from one sentence, document or failure to the next",
  "What a block which processes documents sentence by sentence does with a sentence - how it changes its trees, what it prints and logs for it, whether it fails - depends on that sentence and the parameters of the block only. "
  "It does not depend on the sentences and documents which the same block has processed before, in whatever order, nor on whether the processing of one of them failed (with an error of the block itself, with a failing allocation or an interrupt at any point), nor on other blocks of the same class used in between with the same or other parameters: "
  "the result is that of a new block applied to the sentence alone in a document. A block neither changes a sentence before its turn nor one that it has finished. "
  "Meant are the annotation, transformation, tokenisation and printing blocks of ud, transform, util, tokenize, tutorial and write; blocks which by their documentation collect, number, split, join, evaluate or merge sentences across a document are exempt, as are coreference blocks.",
  ["histories", "fault_sequences", "inputs"], "all sequences of documents given to one block, with failures at any point and other instances of the block interleaved",
  "Tests use a block once, on one document, and do not compare it with a fresh one; state that is left over shows only with the right predecessor.",
  ["udapi/block/ud", "udapi/block/transform", "udapi/block/util", "udapi/block/write", "udapi/block/tokenize", "udapi/core/block.py"],
  [("state kept in blocks while a sentence is processed", "udapi/block/ud/fixpunct.py _punct_type, udapi/block/ud/setspaceafter.py changed, udapi/block/write/textmodetrees.py lines, lengths, attrs"), ("application of blocks", "udapi/core/block.py process_document")],
  [], ["trees after each sentence", "standard output and log per sentence"])

# Not decided by this family (pure functions of one document, no fault, schedule or history in them).
p("N01", "Evaluation blocks compute the published scores",
  "The evaluation blocks return the scores defined by the CoNLL shared tasks for every pair of gold and predicted documents.",
  ["inputs"], "all pairs of documents", "Tests do not compare with the reference scorer.",
  ["udapi/block/eval"], [("scorers", "udapi/block/eval/conll17.py, conll18.py, parsing.py")])
p("N02", "Tree transformations satisfy their linguistic specification",
  "Projectivisation, deprojectivisation, flattening, conversion between annotation styles and the like give trees with the stated linguistic property for every input tree.",
  ["inputs"], "all trees", "Tests sample one tree per transformation at most.",
  ["udapi/block/transform", "udapi/block/ud"], [("transformations", "udapi/block/transform, udapi/block/ud")])
p("N03", "Segmentation and spacing heuristics decide as documented",
  "segment.Simple, the tokenisers and ud.SetSpaceAfter put boundaries and spaces where their documentation says, for every text (that nothing is lost is part of P19).",
  ["inputs"], "all texts", "Tests tokenise no text.",
  ["udapi/block/segment", "udapi/block/tokenize", "udapi/block/ud/setspaceafter.py"], [("heuristics", "udapi/block/segment/simple.py")])
p("N04", "Exports to other formats are valid in those formats",
  "Documents written as HTML, TikZ, Treex XML, SDParse or VISL CG are well-formed in the target format for every document.",
  ["inputs"], "all documents", "Tests do not parse the exported formats.",
  ["udapi/block/write"], [("writers", "udapi/block/write")])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')

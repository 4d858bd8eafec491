import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),**({'observe_at':observe} if observe else {}),hook_needed=None)))
T="src/tree.rs"; D="src/document.rs"; N="src/node.rs"; A="src/attributes.rs"; W="src/writer.rs"; PM="src/parser/mod.rs"; PT="src/parser/text.rs"; V="src/attribute_value.rs"

p("C01","Tree edits by any number of handle holders keep one exact ordered tree",
 "After any interleaving of append, prepend, insert-before/after, detach, move, remove, drain and copy performed through any of the handles to a document's nodes, parent, children, first/last child, both siblings, root, has-children and has-parent of every node agree with a plain ordered tree (for nodes outside the tree: plain ordered rows of siblings without a parent) to which the same edits were applied. Moving a node that already has a place takes it (with its whole subtree) out of that place and into the new one, wherever the two places are relative to each other. No edit whose documented preconditions hold panics or changes any node other than those it moves and their neighbours; putting a node into, before or after itself is refused and changes nothing.",
 ["schedules","histories","programs"],"All interleavings of structural edits issued by several holders of node handles, including handles resolved late, over one or more documents and any detached fragments.",
 "The tests build a handful of fixed trees and never move a node that already has a place next to its new neighbours, nor mix edits from several handles; the property is over all edit histories.",
 [T,N,D],[("append, prepend, insert_after, insert_before relink parent, sibling and child pointers",T),("detach unlinks a node from its neighbours",T),("root lookup",T)],
 ["parent/first_child/last_child/previous_sibling/next_sibling/root of every node after every step","forward and backward child walks agree"],
 [("parent, first_child, last_child, previous_sibling, next_sibling","the pointer web that must stay one ordered tree",T)])

p("C02","Live cursors over the tree stay exact, and stay safe when the tree changes",
 "A cursor over ancestors, preceding or following siblings, children, descendants or the full traversal yields exactly the nodes of its region in document order, each once, for every interleaving of front and back steps with edits made elsewhere in the document. If its own region is edited, or the document is closed, while the cursor is open, every step still returns without panicking. Once edits stop, the cursor reports its end within a number of steps bounded by the number of nodes.",
 ["schedules","histories"],"All interleavings of cursor steps (from both ends where supported) with edits, removals and document close issued by other holders.",
 "Tests iterate fixed trees front to back in one go; no test steps from both ends in arbitrary order or edits between two steps.",
 [T],[("prefetching iterators with both-ends-meet test",T),("silent stop when the tree was modified during iteration",T)],
 ["sequence of nodes returned by each cursor"])

p("C03","A node's users list is always exactly the link attributes that point at it",
 "At every moment the list, count and used-flag of nodes linking to a node equal, as a multiset, the link attributes on live nodes whose value is that node, whatever names those attributes have. Removing a node leaves no attribute anywhere that points at it and no user entry that came from it, and a link keeps pointing at the same node when that node's id is renamed or either end is moved. No live node ever links to itself, and two live nodes never link to each other.",
 ["histories","schedules","inputs"],"All histories of setting, overwriting and removing link and plain attributes, renaming ids, moving, copying, removing, draining nodes and loading documents.",
 "The invariant relates all nodes after every history; tests check counts after one or two operations with standard attribute names.",
 [N,D,PM],[("linking and unlinking when an attribute is set, overwritten or removed",N),("unlinking in both directions when a node is removed",D),("link resolution at the end of loading",PM)],
 ["linked_nodes/uses_count/is_used versus all link attributes of all live nodes after every step"],
 [("linked_nodes","multiset of nodes that link to this one","src/lib.rs")])

p("C04","Node data: last write wins, and a rejected write changes nothing",
 "A node's attributes behave as a map from name to value: a set replaces the value under that name only, set-if-absent never replaces, removal affects only that name, and each name occurs at most once through every way of reading it. Id, tag name and text return the last value written, and no operation alters the data of a node it does not target. Setting a link to a node without an id, to itself, or to a node that already links back is refused with the matching error, an empty tag name is refused too, and the whole document stays as it was.",
 ["histories","schedules"],"All histories of attribute, id, tag and text writes, reads and refused writes over many nodes and holders.",
 "Frame conditions ('nothing else changed', 'refused write changes nothing') quantify over the entire document after every history; tests look at one attribute of one node.",
 [N,A,"src/attribute.rs","src/name.rs"],[("checked attribute set with link preconditions before any mutation",N),("name-keyed attribute list",A)],
 ["attribute map, id, tag, text of every node after every step"])

p("C05","Remove and drain take out exactly the chosen nodes with their subtrees",
 "Removing a node takes that node and its whole subtree out of the document and nothing else; draining under a node removes exactly the topmost descendants matching the predicate, each with its subtree, never the starting node, and returns how many matched. Removed nodes are reported as no longer belonging to a document, while every other node keeps its place, data and remaining links. Removing an already removed node is harmless (removed nodes are not put back or linked to).",
 ["histories","schedules","programs"],"All trees, predicates (including ones that read or edit attributes through other handles while draining runs) and repeated removals.",
 "Needs arbitrary predicates over arbitrary link webs and tree shapes, including call-outs that run in the middle of the operation; tests drain two tiny documents.",
 [D],[("recursive removal with storage key hand-back",D),("drain walk that saves the next sibling before removing",D)],
 ["surviving tree, returned count and detached flag after each removal or drain"],
 [("storage","slab that owns every node of the document",D)])

p("C06","Copies are equal, separate, carry no ids and are counted as users",
 "A copy has the original's kind, tag, text and attributes except the id, a deep copy repeats the whole subtree in order, and the result is unattached and shares no node with the original. Link attributes of a copy point at the same targets as the original's and are counted there as additional users. Later changes to either never show in the other, and copying changes nothing about the original.",
 ["histories","schedules"],"All source subtrees, link webs and later edit histories on original and copies.",
 "Independence quantifies over all later histories on both sides; tests compare two copies once, right after copying.",
 [D],[("node-by-node copy through the normal creation and attribute paths",D)],
 ["model equality of copy and original after every later step"])

p("C07","Held read or write guards never break work that does not touch them",
 "While any number of read guards on node data are held, every read, cursor step, copy-source read and save over the whole document works as if they were not held. Edits that do not involve a guarded node or its direct neighbours and link partners succeed with the same result as without guards, also while a write guard is held elsewhere. Guards always show the value that was current when no conflicting write was possible, and releasing them in any order leaves the document fully usable.",
 ["schedules","histories"],"All placements and release orders of read and write guards held by several holders across other holders' operations.",
 "Run-time borrow conflicts depend on which guards happen to be alive across which operation; tests never hold a guard across another operation.",
 [T,N,D,W],[("per-node run-time borrow cells, borrowed only for the duration of each step",T),("guards returned for text, id, tag, attributes and users",N)],
 ["absence of borrow panics; results equal to the same schedule without guards"])

p("C08","A saved document survives crash and restart unchanged, with any write options",
 "When a document's saved text has reached durable storage, loading it after any crash and restart gives a document equal to the one saved: same elements in the same order, ids, comments, text, typed attribute values and links to the corresponding nodes, for every choice of write options and any number of save/restart generations. This holds for documents under a single outer svg element made of SVG elements and attributes with values of the kind that attribute has, comments, text inside text elements (no redundant white space unless preserved), and any characters XML can carry, apart from surrounding white space, in attribute values; ids that are linked to contain no white space or parentheses. Saving never alters the document in memory, and what is saved is well-formed XML that says exactly what the document holds, non-SVG elements and attributes included; these are the only content dropped, by loading.",
 ["crash_points","inputs","configurations","histories"],"All normal-form documents, write options, save protocols and crash points after the durable point, over several generations.",
 "Quantifies over all documents, options and generations; tests compare a few dozen strings in one direction only.",
 [W,PM,PT,V,"src/names.rs"],[("serialisation of tree, attributes and links",W),("typed value writing",V),("typed parsing and link resolution",PM),("white-space processing",PT)],
 ["loaded tree versus in-memory model after each simulated restart"])

p("C09","Damaged or half-written files never crash, hang or corrupt loading",
 "Loading whatever a fault left in storage (torn, truncated, mixed-generation, bit-flipped or otherwise damaged text) terminates without panicking and yields either an error or a document. Any document it yields satisfies the same tree, link and text invariants as an intact one, can be edited, saved and closed normally, and a failed load leaves nothing behind.",
 ["fault_sequences","crash_points","inputs"],"All fault sequences on stored bytes of saved or foreign files, at any crash point of a save.",
 "The set of damaged files is unbounded; tests feed about thirty hand-written files, nearly all well-formed.",
 [PM,PT,"src/error.rs"],[("error propagation and ignore-with-warning of invalid attributes",PM),("link resolution tolerant of missing and crossing links",PM),("text preparation guarded against empty text",PT)],
 ["panic/termination of load; full invariant check of the returned document"])

p("C10","Removed nodes, failed loads and closed documents give all memory back",
 "Once a node has been removed and its handles dropped its memory is released even though the document stays open, so repeated create/link/remove cycles do not grow a document. When a document is closed and all handles, cursors and guards are dropped, everything it ever allocated is released, whatever links or cycles of links existed. The same holds for failed loads and for work abandoned by a panic in caller code.",
 ["histories","schedules","fault_sequences"],"All edit/link/remove histories, load failures, caller crashes and close orders.",
 "Leaks through reference cycles depend on the whole history and are invisible to any value-based test; no test measures memory.",
 [D,N,PM],[("storage hand-back on removal",D),("clearing attributes, users and tree pointers of every stored node on close",D)],
 ["live bytes counted by the allocator seam before and after each simulated run and around churn probes"],
 [("storage","owns nodes, so cycles are broken on close",D)])

p("C11","Handles that outlive their document are safe and isolated",
 "After a document is closed, every surviving handle to any of its nodes can still be read without panicking. Each such node stands alone: no parent, siblings or children, it is its own root, it holds no link to another node and no node lists it as a user, while its kind, tag name, id and text are what they were. Cursors opened earlier end within a bounded number of steps.",
 ["histories","schedules","crash_points"],"All histories before the close, and all sets of handles, cursors and fragments alive at the instant of the close.",
 "No test keeps a handle past its document; what survives depends on the history and on the moment of closing.",
 [D,T],[("document drop dismantles all stored nodes",D),("navigation over weak references",T)],
 ["all reads on surviving handles after close"])

p("C12","Documents do not influence each other, whatever threads or log sink do",
 "What any operation on a document returns, and every byte it saves, depends only on that document's own history: not on other documents being loaded, edited, saved or closed in between, on the same or on other threads, even in the middle of one of its operations. It does not depend on whether a log sink is installed, on the sink's level, or on what the sink does meanwhile with other documents.",
 ["schedules","histories","configurations"],"All interleavings of operations on several documents on one or more threads, with switches at operation boundaries and at every log call-out.",
 "Tests use one document at a time and no log sink; hidden shared state only shows under particular interleavings.",
 [D,PM,W,"src/names.rs"],[("no shared mutable state: every document owns its nodes, parser and writer state is local",PM)],
 ["per-document event log compared with the same history run alone"])

p("C13","The same history always produces the same results and the same bytes",
 "Repeating the same sequence of operations gives the same results, the same node orders and byte-identical saved text every time, in the same process, in another process and with a different memory layout. Saving twice without edits in between gives identical bytes, and those bytes do not depend on read guards, cursors or extra handles that happen to exist.",
 ["histories","schedules","configurations"],"All operation histories, replayed under different memory layouts, processes and passive observers.",
 "A single test run cannot see run-to-run variation; hash seeds and addresses differ only between runs.",
 [W,PM,D],[("ordered attribute output and list-based storage",W),("list-based link resolution in document order",PM)],
 ["digest of all results and saved bytes of two executions of one schedule"])

p("C14","A crash in caller-supplied code leaves documents whole and usable",
 "If caller code invoked in the middle of an operation panics (a drain predicate, a value or name conversion, a printing destination, a log sink during load, save or removal), the document afterwards satisfies every tree, link and attribute invariant. Each node the interrupted operation had to process is either completely processed or untouched, nothing unrelated changed, and all further operations, saving and closing work normally.",
 ["crash_points","fault_sequences","histories"],"All instants at which caller-supplied code can panic within an operation, over all histories before and after it.",
 "Needs a panic injected at each call-out instant followed by more work and a full invariant check; no test panics inside an operation and goes on.",
 [D,N,PM],[("caller code runs only between complete steps, with no node borrowed",D),("values converted before any mutation",N)],
 ["full model check after each injected panic and during all later work"])

p("C15","The name-table generator never reports success on incomplete output",
 "Whenever the generator exits successfully, the name table it wrote is complete and byte-identical to the one written without faults for the same word lists, names every word of both lists, compiles, and finds each word by its name and each name by its word. Interrupted system calls and short reads or writes never change the outcome. When storage is full or failing, or an input cannot be read, it ends with a failure status instead of success.",
 ["fault_sequences","crash_points","configurations"],"All sequences of interrupted, short and failing opens, reads and writes during one run of the generator.",
 "The tests never run the generator, let alone with failing storage.",
 ["codegen/main.rs","codegen/elements.txt","codegen/attributes.txt"],[("error propagation from every write and read to the exit status","codegen/main.rs")],
 ["exit status and output file of the real generator under injected system-call faults"])

p("C16","Printing to a failing destination reports it and emits only a prefix",
 "Whenever a document, node, attribute list or attribute value is printed into a destination that fails, fills up or takes only part of what it is given, the caller gets the failure, what the destination accepted is a prefix of the full text, and the document is unchanged. Interruptions and short writes that are not failures change nothing; printing succeeds exactly when all of the text was accepted, and printing again gives the full text. While printing is under way the destination may read the document and use other documents.",
 ["fault_sequences","crash_points","histories"],"All sequences of short, interrupted and failing writes of a destination, at every point of the text, for every document and everything that can be printed, and all reads the destination makes meanwhile.",
 "Tests print into strings, which never fail; whether a failure in the middle is passed on or swallowed shows only when the destination fails at that point.",
 [W,T,A,D,V],[("errors of every write passed on by the tree and attribute printers",W),("Display of documents, nodes, attribute lists and values",D)],
 ["result of printing, accepted bytes versus full text, document model before and after"])

p("C17","Lost, repeated, moved or stale elements disturb only references to them",
 "When a stored file has lost whole elements, holds some of them twice, in another place, under another or no id or as an older save had them, or has references that got another element's id, everything else loads as it was saved, in order. Each reference leads to the first element in document order with its id; one whose element is gone becomes its paint fallback, 'none' for a fill without fallback, and otherwise stays as text. A reference to the element itself, or back to one whose link was kept earlier in document order, is left out; the link and user invariants hold for the result.",
 ["fault_sequences","histories","inputs"],"All combinations of lost, duplicated, reordered, stale and resurrected elements and misdirected references, in files saved by all edit histories.",
 "Tests load a few fixed reference patterns; what a file looks like after parts of it were lost or mixed between generations depends on the whole history and on which parts.",
 [PM,D,N],[("deferred link resolution in document order, with fallbacks",PM),("refusal of self and crossing links",N)],
 ["nodes, attributes, links and users of the loaded document versus the model of what is left of the saved one"])

p("C18","A file rewritten in an equivalent form by another program loads the same",
 "What other programs that share a file do to its form does not show after loading: order, quoting and spacing of attributes, white space around their values, other notations of the same number, list, colour, angle, path, aspect ratio or transform, character references, entities and CDATA, XML declaration, document type, namespace prefixes (on elements and attributes), which and how much white space stands where there is some or around it in text that is not space-preserving, and elements, attributes and processing instructions that are not SVG. A presentation value moved into the style attribute or a style sheet loads as if it had stayed (the marker shorthand standing for the three markers), whatever weaker values (links included) are left behind: style attribute before style sheet before presentation attribute, within a sheet the more specific and then the later rule.",
 ["inputs","histories","fault_sequences"],"All equivalent rewritings by another participant between a save and the next load, of files saved by all edit histories.",
 "Equivalent forms are unbounded and multiply with document contents; tests compare a few fixed files.",
 [PM,PT],[("style sheet and style attribute resolution",PM),("namespace and name filter",PM),("white-space preparation",PT)],
 ["nodes, attributes, links and text of the loaded document versus those that were saved"])

# not applicable
p("C20","Attribute values load into the type their attribute has",
 "Each SVG attribute's text is converted to that attribute's value type as the specification defines, invalid values being ignored.",
 ["inputs"],"All attribute/value texts.","The input space is unbounded; tests sample a few values per type.",
 [PM],[("per-attribute typed parsing",PM)])
p("C21","Style sheets and style attributes resolve to the cascade's winner",
 "For every style sheet, style attribute and presentation attribute combination, each element ends with the value the supported CSS subset prescribes.",
 ["inputs"],"All style sheets and documents.","Unbounded combinations of selectors and rules.",
 [PM],[("rule application order during load",PM)])
p("C22","White space in text follows the document's space-preservation rules",
 "Text content after loading has white space collapsed, trimmed or preserved as the space attribute in effect prescribes.",
 ["inputs"],"All text contents and nesting.","Unbounded inputs.",[PT],[("white-space preparation pass",PT)])
p("C25","Name lookup is a bijection between names and identifiers",
 "Every known element or attribute name maps to exactly one identifier and back, and unknown names map to none.",
 ["inputs"],"All strings.","All strings cannot be tested.",["src/names.rs"],[("perfect hash table","src/names.rs")])
p("C26","Element and attribute classes and default values match the specification",
 "The class predicates and default values reported for each element and attribute are those of the SVG specification.",
 ["inputs"],"All identifiers.","Tests sample a few identifiers.",["src/attribute_type.rs","src/element_type.rs",V],[("constant tables","src/attribute_type.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)

prop("C01", "CTS passage references parse, print and expose their parts faithfully",
     "Every non-empty CTS passage reference text - a single passage or a start-end range, each side optionally carrying an @subreference - parses to a reference that prints back exactly that text, is a range exactly when the text has an end, and whose start and end print as the two sides. The list, iteration, length and depth of a side are its dot-separated components without the subreference, the reference's depth is that of its shallower side, and the subreference carries the word and its counter (0 when absent). Building from a pair of sides gives a reference equal to the one parsed from the text, and two references are equal exactly when their texts are.",
     ["inputs"], "every reference text built from any number of components of any characters other than the separators, with or without subreference on each side",
     "tests sample a handful of short numeric references; the claim is for any number of components and any characters",
     [CTS, BASE], [("CtsReference construction", CTS + ":CtsReference.__new__"), ("CtsSinglePassageId", CTS + ":CtsSinglePassageId"), ("CtsWordReference", CTS + ":CtsWordReference")],
     "str(), start, end, list, len, depth, subreference, == of references",
     ("proof", "all clauses proved for any number of components except the word/counter grammar of a subreference, whose regular expression is trusted (uninterpreted) in the proofs and covered by a bounded run"))
prop("C02", "Parent, highest and depth of passage references follow the hierarchy",
     "The parent of a single reference drops its last component and keeps its subreference, and a reference at the top level has none; each parent is exactly one level shallower. The parent of a range is the single common parent when both sides have the same parent and carry no subreference, otherwise the range of the two parents, and there is none when either side is at the top level. The highest side of a range is the shallower one (the start when equal), and the depth of a reference is the depth of its highest side.",
     ["inputs"], "all references with any number of components on each side, with or without subreferences",
     "tests check a few references of depth one to three",
     [CTS], [("CtsReference.parent", CTS + ":CtsReference.parent"), ("CtsReference.highest", CTS + ":CtsReference.highest"), ("CtsReference.depth", CTS + ":CtsReference.depth")],
     "parent, highest, depth of references",
     ("proof", "all clauses proved for any number of components"))
prop("C03", "CTS URNs parse into members, print back, follow updates, compare and count",
     "A CTS URN text with a namespace and optionally a textgroup, work, version and passage parses into exactly those members and prints back as the text before any #fragment; fewer than three colon-separated members is a ValueError. Its length counts the members without the passage, greater/lower compare lengths, and two URNs are equal exactly when their texts are (never equal to a plain string). Replacing one member changes only that member, and the printed URN, equality and length follow it whether or not the URN had been printed before.",
     ["inputs", "histories"], "all member texts of any length without the separators, all combinations of present members, every single-member update before or after printing",
     "tests check about ten well-known URNs; the separators, caching of the text and update order interact",
     [CTS], [("URN parsing", CTS + ":URN.__parse__"), ("URN printing and its cache", CTS + ":URN.__str__"), ("member setters", CTS + ":URN.reference")],
     "str, members, len, ==, !=, <, > of URNs", ("proof", "all clauses proved for strings of any length"),
     [("cached text", "the printed form kept until a member changes")])
prop("C04", "Partial URNs are the documented prefixes and missing members are errors",
     "Asking a URN for its text up to the namespace, textgroup, work, version, without passage, passage, passage start, passage end or complete gives exactly the prefix made of those members. Asking for a member the URN does not have, or with an unknown key, is a KeyError. The partial URN parses back to the same members and asking leaves the URN unchanged.",
     ["inputs"], "all URNs with any member texts, all nine levels and every other integer key",
     "tests check a few levels on a few URNs",
     [CTS], [("URN.upTo", CTS + ":URN.upTo")], "upTo results and errors", ("proof", "all clauses proved for strings of any length"))
DTSF = "MyCapytain/common/reference/_dts_1.py"
META = "MyCapytain/common/metadata.py"
prop("C05", "Sets of references keep members, order, level; membership and equality cohere",
     "A set built from a list or from arguments holds exactly those references in that order with the level and citation given. A text is in a CTS set exactly when a member prints as it, asking by text or by reference is the same, and index gives the first such position or ValueError. DTS references are equal exactly when start, end and type are, DTS sets when members, level and citation are, unequal is always the opposite of equal, and membership in a DTS set is equality with a member.",
     ["inputs"], "reference sets of any number of members of any text, ranges or not, typed or not; all probes",
     "tests use sets of at most a few references and never compare equality with inequality",
     [BASE, CTS, DTSF], [("set construction", BASE + ":BaseReferenceSet.__new__"), ("CtsReferenceSet membership", CTS + ":CtsReferenceSet"), ("DtsReference equality", DTSF + ":DtsReference.__eq__")],
     "list, len, in, index, ==, != of references and reference sets",
     ("proof", "all clauses proved; sets of references given as a list of any length, given as arguments up to two"))
prop("C06", "Citation trees iterate, count, nest and match according to their levels",
     "Iterating a citation or citation set gives every level before the levels nested in it, its length and depth are the number of nested levels and the longest way down, and indexing by k gives exactly the levels k steps below, negative indices counting from the deepest and too deep being an error. A CTS citation matched with a reference gives the level of the reference's depth whichever level is asked, or KeyError when there is none, and every level has the top of its scheme as root. Citations read from TEI patterns or DTS JSON have the levels, order and root described there, and DTS citations export back to the same structure.",
     ["inputs"], "all citation trees of any width and depth (by induction on the tree), all references and indices",
     "tests use chains and two small trees",
     [BASE, CTS, DTSF], [("iteration, length, depth, levels", BASE + ":BaseCitationSet"), ("Citation.match", CTS + ":Citation.match"), ("DTS ingestion", DTSF + ":DtsCitation.ingest")],
     "list, len, depth, [], match, children, export of citations",
     ("proof", "iteration, length, depth, indexing and match proved for trees of any size; reading XML and JSON is a bounded run (libxml2 and the JSON-LD shape are outside the verifier's reach)"))
prop("C07", "Citation patterns number, split, fill and select passages as written",
     "Placeholders of a citation built from a scope and an xpath are numbered from left to right, a pattern splits into the scope and the last step it is made of, and replacing one part keeps the other. Filling a pattern puts the components of a reference (the start of a range, or a list of values) in order in its placeholders, drops the test where there is no value, and the filled pattern selects exactly the elements with these values. A pattern exported to TEI reads back as the same pattern, and exported to CTS carries the scope, xpath and label of each level.",
     ["inputs"], "patterns of one to four levels in the documented forms, arbitrary texts around placeholders for the numbering",
     "tests check three or four fixed patterns",
     [CTS], [("pattern assembly", CTS + ":Citation._fromScopeXpathToRefsDecl"), ("pattern splitting", CTS + ":Citation._parseXpathScope"), ("Citation.fill", CTS + ":Citation.fill")],
     "refsDecl, scope, xpath, attribute, fill, export of citations",
     ("exploration", "numbering and setters proved (numbering for up to four placeholders); splitting, filling and selection rest on regular expressions and XPath and are bounded runs"))
prop("C16", "Metadata set, add, get, remove touch exactly the statements they name",
     "Adding a value to an object's metadata adds exactly that statement, setting makes it the only value of its key, removing or unlinking removes exactly the statements that match, and no other statement of any object changes. Reading a key gives exactly the values stored under it, restricted to a language when one is asked; reading a single value gives a stored one, in the asked language when there is one, and nothing only when nothing is stored. Exports list exactly the statements of the object selected by the only and exclude arguments and modify neither the store nor the arguments.",
     ["inputs", "histories"], "all stores (any set of statements), all objects, keys, values, languages",
     "tests use small fixed stores and never look at the rest of the store",
     [META], [("Metadata", META + ":Metadata"), ("export selection", META + ":Metadata.__export__")],
     "contents of the store and values read after each operation",
     ("proof", "every operation proved over an arbitrary store under the stated contract of rdflib's graph; the four exports are bounded runs"))
LOCAL = "MyCapytain/resources/texts/local/capitains/cts.py"
PTEXT = "MyCapytain/resources/prototypes/text.py"
XMLU = "MyCapytain/common/utils/xml.py"
prop("C08", "Previous, next, first, last and children are the neighbours in document order",
     "The previous and next identifiers of a local passage are the references just before and after it among the references of its level in the text, None at the beginning and at the end; for a range they are the ranges of as many passages just before and after, cut at the ends of the text. Following next from the first passage visits every passage of the level once, in order, and previous is its inverse, for passages obtained by navigation too. Children, first and last are the references one level below in order, and a range between two different levels has no siblings but an error.",
     ["inputs", "histories"], "all lists of references (any length), all passages and ranges in them; walks over random documents",
     "tests look at a few passages of two texts and never walk further than one step",
     [LOCAL, PTEXT, XMLU], [("siblings of passages", LOCAL + ":CapitainsCtsPassage.siblingsId"), ("siblings of simple passages", LOCAL + ":_SimplePassage.siblingsId"), ("interactive navigation", PTEXT + ":InteractiveTextualNode")],
     "prevId, nextId, prev, next, first, last, children, childIds",
     ("proof", "siblings, first, last and children proved for reference lists of any length given the references of the text (C09); walks over whole XML documents are bounded runs"))
prop("C09", "References of a text at a level are complete, exact and in document order",
     "Asked for the references at a level, a local text gives exactly the references of that level of its citation hierarchy, in document order, each starting with the reference of its container; below a passage, exactly those that continue it, at the next level when the level asked is not deeper than the passage; inside a range, exactly those from its start to its end. A level deeper than the citation scheme is a CitationDepthError and a passage without anything below (or unknown) a KeyError. The set carries its level and citation, and a checked request warns exactly when a reference is duplicated or empty.",
     ["inputs"], "all documents whose elements answer the citation patterns, any number of elements at each level, levels one to four",
     "tests compare a few levels of three texts",
     [LOCAL], [("getValidReff", LOCAL + ":_SharedMethods.getValidReff"), ("getReffs", LOCAL + ":_SharedMethods.getReffs")],
     "getReffs and getValidReff of texts and passages",
     ("proof", "whole texts and below a passage proved for any number of elements per level up to four levels, given the contract of XPath selection; ranges, warnings and real XML are bounded runs"))
prop("C10", "A passage holds exactly the text from its start to its end and leaves the text alone",
     "The passage a local text returns for a reference or a range contains exactly the citable elements from the start to the end, both included, complete and in order, with their containers and nothing else, whatever the levels of the two ends and the form the reference is given in. Its reference, URN and citation are those asked for, and the simple form is the element itself. A reference deeper than the citation scheme or not in the text is an error, and extracting passages never modifies the text.",
     ["inputs", "histories"], "all numbers of elements before, between and after the ends at each step of the extraction; random documents of one to four levels",
     "tests extract a few ranges and compare fragments",
     [LOCAL, XMLU], [("tree reconstruction", XMLU + ":passageLoop"), ("path steps", XMLU + ":normalizeXpath"), ("passage extraction", LOCAL + ":_SharedMethods.getTextualNode")],
     "content of the passage and of the text after extraction",
     ("proof", "the selection of siblings at every step is proved for any number of siblings, by induction on the path under contracts for XPath and copy; whole extractions on real XML are bounded runs"))
META_PROTO = "MyCapytain/resources/prototypes/metadata.py"
INV = "MyCapytain/resources/prototypes/cts/inventory.py"
prop("C11", "Collections form a tree that is attached, walked, searched and pruned consistently",
     "Giving a collection a parent makes it a member of that parent under its identifier, after the members already there and never replacing one of the same identifier, and adds exactly that one statement to the store. Descendants are the members followed by their own descendants, readable descendants those that are readable, parents go from the closest to the furthest, and an identifier is found in a collection exactly when it is its own or that of a descendant, otherwise it is an error. Removing a member or descendant removes it with what is below it and exactly the statements about it, leaving every other collection and statement as they were.",
     ["inputs", "histories"], "all stores, identifiers and members; trees of any size by induction for lookup and descendants, removal over an arbitrary store, random trees",
     "tests attach and remove in one small tree and never look at the rest of the store",
     [META_PROTO], [("attaching", META_PROTO + ":Collection.parent"), ("lookup", META_PROTO + ":Collection.__getitem__"), ("removal", META_PROTO + ":Collection.__delitem__")],
     "members, children, parents, descendants, [], in, del and the statements of the store",
     ("proof", "attachment, descendants, lookup proved for any members and store; removal for any store and identifiers in trees of three shapes; parents for chains up to six (bounded), random trees (bounded run)"))
prop("C12", "Merging CTS works and text groups unites their texts; counts and filters are exact",
     "Updating a work with another of the same URN gives it the texts of both, the added text winning where an identifier is in both, every text belonging to the work; updating a text group gives it the works of both, known works staying themselves with the texts of both, the others copied, and leaves the other group as it was. Another URN is an InvalidURN error, another type a TypeError, and nothing changes then. Lengths count exactly the texts below, translations and editions are exactly those of that class and language, a text has the language it is given or else that of its work, and two objects are equal exactly when their class and URN are.",
     ["inputs"], "all members and languages (any number) for counts and filters; merges by induction on the entries added to any dictionary",
     "tests merge two small fixed groups",
     [INV], [("merging works", INV + ":CtsWorkMetadata.update"), ("merging groups", INV + ":CtsTextgroupMetadata.update"), ("translations", INV + ":CtsWorkMetadata.get_translation_in")],
     "texts, works, len, translations, editions, lang, errors",
     ("proof", "counts, filters, languages and errors proved; merges proved one entry at a time over any dictionary, and whole for up to two entries on each side"))
RUTIL = "MyCapytain/resolvers/utils.py"
RLOCAL = "MyCapytain/resolvers/cts/local.py"
prop("C13", "Collections are dispatched to the inventory of the latest filter accepting them",
     "A collection given to the dispatcher becomes a member of the inventory of the most recently registered filter that answers True for it, of the default inventory (the one named, or else the first) when no other does, and it is an error when none does. Registering a filter, directly or as a decorator, adds it after the others. The local resolver dispatches each text group of its folders this way, merging a group it already knows, with its works and texts, into the one known, and an undispatched group is an error only when asked.",
     ["inputs", "histories"], "any list of filters with any answers; any identifiers for the two-group histories",
     "tests use three filters on disjoint identifiers",
     [RUTIL, RLOCAL], [("dispatch", RUTIL + ":CollectionDispatcher.dispatch"), ("merging while dispatching", RLOCAL + ":CtsCapitainsLocalResolver._dispatch")],
     "inventories and their members after dispatching",
     ("proof", "dispatch proved for any list of filters; the resolver's merge proved for histories of two groups"))
prop("C14", "Searching the local catalogue returns exactly the matching texts, page by page",
     "Searching the local resolver returns exactly the texts with a citation that match the URN (given as text or URN, down to whichever member it has), the language and the category asked, in catalogue order. A page starts where the previous one ends, holds the number of items asked, or the default when that is out of bounds, fewer on the last page, and a page after the last is the last. Metadata asked for an identifier is a collection with that identifier whose readable texts are exactly those of the catalogue below it, same class, language and citation, or an error when there is none, and the catalogue stays as it was.",
     ["inputs"], "all pages, limits and lengths; any number of texts; random catalogues",
     "tests check five pages and a catalogue of five texts",
     [RLOCAL], [("pagination", RLOCAL + ":CtsCapitainsLocalResolver.pagination"), ("filters", RLOCAL + ":CtsCapitainsLocalResolver.__getTextMetadata__"), ("metadata", RLOCAL + ":CtsCapitainsLocalResolver.getMetadata")],
     "texts, page number and count returned; collection returned",
     ("proof", "pagination and filters proved for all integers and any number of texts; the collection built for an identifier and paging the filtered list are bounded runs"))
prop("C15", "The local resolver finds the text of an identifier and reads it as the text itself",
     "Asked for the URN of a version the local resolver opens that text, for the URN of a work (with or without passage) the first edition of that very work or an unknown object error, and for less an invalid URN error. The catalogue read from folders holds exactly their groups, works and texts with their names, languages and kind, in whatever encoding the files declare, texts whose file is missing have no citation, and a catalogue file that cannot be read is an error, or left out when errors are not to be raised. Passages, references and siblings obtained from the resolver are those the text itself gives, and the metadata asked with a passage is that of its group, work and version.",
     ["inputs"], "any number of texts for the choice of text; random folders of groups, works and texts",
     "tests use one repository of three works",
     [RLOCAL, "MyCapytain/resources/collections/cts.py"], [("text lookup", RLOCAL + ":CtsCapitainsLocalResolver.__getText__"), ("folder parsing", RLOCAL + ":CtsCapitainsLocalResolver.parse"), ("reading", RLOCAL + ":CtsCapitainsLocalResolver.getTextualNode")],
     "texts opened, catalogue content, passages, references, siblings, metadata",
     ("exploration", "the choice of the text is proved for any texts; folders and reading are bounded runs (files and XML are outside the verifier's reach)"))

EXPB = "MyCapytain/common/base.py"
TEIB = "MyCapytain/resources/texts/base/tei.py"
prop("C17", "An object exports exactly the formats it announces; text exports carry the text",
     "Exporting to a format is done by the first class of the object's hierarchy that announces the format, with the options given, the default format when none is asked, and a format no class announces is an error; the formats listed are exactly those some class announces. The plain text of a text is its text nodes in document order, without those inside excluded elements (the default exclusions when none is given), joined as asked with runs of spaces made one, and leaves the text unchanged. The XML export is the XML of that very element, without what follows it, and the nested dictionary holds each passage under its reference, in order.",
     ["inputs"], "any hierarchy of classes and formats; random markup and random documents",
     "tests export a few fixed passages and read one list of formats",
     [EXPB, TEIB, XMLU, "MyCapytain/common/utils/_generic.py"], [("choice of the exporter", EXPB + ":Exportable.export"), ("text exports", TEIB + ":TeiResource.__export__")],
     "export(), export_capacities, text, str()",
     ("proof", "choice of the exporter and list of formats proved for any hierarchy; content of the text exports is a bounded run (lxml is outside the verifier's reach)"))
CTSC = "MyCapytain/resources/collections/cts.py"
prop("C18", "Catalogues written as XML are well formed and read back as the same catalogue",
     "An inventory written as CTS or CapiTainS XML is well formed whatever characters its names, labels and identifiers hold, and reading it back, from text or from parsed elements, gives the same text groups, works and texts with the same identifiers, kinds, languages, names in their languages, citation schemes and links to the works commented, and for CapiTainS XML the same further statements with their language or datatype. Writing changes nothing, writing again what was read gives the same catalogue, several inventories written together hold the groups of each, and a group, work or text written on its own reads back as itself. This is for names that are in a language, editions in the language of their work, and literals that carry their datatype when their text reads as a number or an identifier.",
     ["inputs"], "random catalogues of up to two groups, four works and twelve texts; any text in attributes and content for single nodes",
     "tests read a few files and compare exports of one inventory with fixed strings",
     [INV, CTSC, XMLU], [("writing", INV + ":CtsWorkMetadata.__export__"), ("reading", CTSC + ":XmlCtsTextInventoryMetadata.parse"), ("single nodes", XMLU + ":make_xml_node")],
     "export() of inventories and parse() of the result",
     ("exploration", "single nodes proved for any text under contracts on the standard library's escaping; whole catalogues are bounded runs"))
RCTS = "MyCapytain/resources/texts/remote/cts.py"
CTS5 = "MyCapytain/retrievers/cts5.py"
ACTS = "MyCapytain/resolvers/cts/api.py"
prop("C19", "A client of a CTS server asks what it is told and reads what the server says",
     "Each request of the CTS client is sent once, under its name, with exactly the parameters given (the inventory of the client when none is given), an error of the server is an error, and the answer is read in the encoding the server announces, else UTF-8. Texts, passages and the resolver over a server give the references of a level or below a passage, the text of a passage whatever form its reference takes, its neighbours (None at the ends), children, first, last, parent, citation scheme and names in their languages as the server's document has them, and what came with the passage or was asked before of its neighbours is not asked again (a name without language is English). The catalogue and its members are those of the server, whatever its XML declares.",
     ["inputs", "histories"], "all parameters of requests; a server holding a random document or catalogue, walked forward, backward and down",
     "tests answer every request with one canned file and look at the parameters of a few calls",
     [CTS5, RCTS, ACTS], [("requests", CTS5 + ":HttpCtsRetriever.call"), ("reading passages", RCTS + ":CtsPassage"), ("resolver", ACTS + ":HttpCtsResolver")],
     "requests sent; texts, passages and collections read",
     ("exploration", "requests proved for all parameters under a contract for the HTTP library; reading the answers is a bounded run against a server described independently"))

DTSR = "MyCapytain/retrievers/dts/__init__.py"
HTTP = "MyCapytain/common/utils/_http.py"
prop("C20", "The DTS client sends each request to the announced route with what is asked",
     "The routes of a DTS server are asked for once and read relative to its endpoint, or on the server they name, with the parameters they carry; an error of the server is an error. A collection, navigation or document request is sent once to its route with exactly the parameters given that differ from the defaults, those of the route, and the reference as a passage or as start and end of a range (a pair also being a range), for the format asked, and the answer is read in the encoding announced, else UTF-8. The pages announced in the header of an answer are found by direction, none where no page is given.",
     ["inputs"], "all parameters, routes and references; random URIs and headers",
     "tests look at the requests of a dozen fixed calls",
     [DTSR, HTTP], [("requests", DTSR + ":HttpDtsRetriever.call"), ("routes", DTSR + ":HttpDtsRetriever.routes"), ("pages", HTTP + ":parse_pagination")],
     "requests sent, routes, pages",
     ("proof", "requests proved for all parameters under a contract for the HTTP library and for URI parsing; URIs and headers are bounded runs"))
DTSC = "MyCapytain/resources/collections/dts/_resolver.py"
DTSB = "MyCapytain/resources/collections/dts/_base.py"
DTSD = "MyCapytain/resources/texts/remote/dts/_resolver_v1.py"
ADTS = "MyCapytain/resolvers/dts/api_v1.py"
prop("C21", "Collections, references and passages of a DTS server are read completely",
     "Whatever the pages a DTS server gives its answers in and the order in which they are asked for, a collection has exactly the members (in order) and parents the server says, each once, with their names, sizes, kinds, statements and citation levels, complete lists are not asked again, and everything below it and its texts are found, also when a request failed and reading is tried again. References asked for a level, a passage or a range are every reference of every page, in order, with their types and statements, and an answer without data is an error. A document or passage has the text, neighbours, container, references and passages below that the server says.",
     ["inputs", "histories"], "any number of references in up to three pages; servers holding random collections and documents with pages of any size",
     "tests read one collection of three fixed pages and walk over three passages",
     [ADTS, DTSC, DTSB, DTSD], [("references", ADTS + ":HttpDtsResolver.getReffs"), ("members and parents", DTSC + ":HttpResolverDtsCollection._parse_paginated_members"), ("documents", DTSD + ":DtsResolverDocument.parse")],
     "children, parents, descendants, references, text and links of passages",
     ("exploration", "collecting references over pages and lazily read lists proved for any number of items; whole servers are bounded runs"))

GRAPHU = "MyCapytain/common/utils/_graph.py"
JSONLD = "MyCapytain/common/utils/_json_ld.py"
prop("C22", "Exports of a collection in RDF and DTS JSON say what is said about it",
     "Exported as RDF/XML or JSON-LD, a collection reads back as exactly the statements about it, about what those lead to, and those naming it; literals and resources spelled alike are not confused, and nothing is changed. Exported as DTS JSON, it reads, with any JSON-LD reader and with this library's DTS client, as its identifier, type, title, description, size, members in order, levels of citation and every other statement with its value and language. A catalogue of a single inventory is written as that inventory, and systems of citation are written level by level and read back nested alike.",
     ["inputs"], "any statements and any number of nested citation levels for the proofs; whole exports of up to four collections and forty statements",
     "tests export three fixed DTS collections and no RDF",
     [META_PROTO, GRAPHU, JSONLD, BASE, DTSF], [("exports", META_PROTO + ":Collection.__export__"), ("subgraph", GRAPHU + ":Subgraph.graphiter"), ("values", JSONLD + ":literal_to_dict")],
     "exports parsed by rdflib and pyld, collections and citations read from them",
     ("exploration", "immediate neighbourhood, values, prefixes and citation levels proved for any number of items; whole exports are bounded runs"))
prop("C23", "Names, languages, kinds, versions and properties are read as they were set",
     "Setting a name, a property of a CTS collection, a link, or the author, title, description or subject of a text adds that statement (a CTS title is also the name) in the language given and changes no other; setting a version, type, model or language makes it the only value and changes no other. Reading one gives a value that was set, in the language asked when there is one, and nothing only when there is none, and so do the readers of the authors, titles, descriptions and subjects of a collection of texts. A CTS text takes its author from its text group, its title from its work and its subject from its own name.",
     ["inputs"], "any statements in the store for the proofs; up to five values of one property for the reading of CTS properties",
     "tests set and read a handful of values on fresh collections",
     [META_PROTO, INV, PTEXT, META], [("names and kinds", META_PROTO + ":Collection.set_label"), ("CTS properties", INV + ":PrototypeCtsCollection.set_cts_property"), ("texts", PTEXT + ":TextualElement.get_title"), ("reading one value", META + ":Metadata.get_single")],
     "get_label, get_title, lang, version, type, get_cts_property and membership of statements in the graph",
     ("proof", "setters and readers proved for any store; reading CTS properties by language and the values a text takes from its work and group are bounded runs"))

RT = "property-based testing: generated workbooks, write/read round trip against the generator's model, shrinking to a minimal choice sequence"
NOTE = "Search over generated cases with a fixed seed; assumes the generators reach the shapes named in the evidence, trusts the harness's own model."

prop("C01", "Cell values survive writing and reading in every file format",
 "Any value put into a cell - boolean, number, percentage, currency, text with any characters and line breaks, rich text, date-time, duration - is returned unchanged by the accessors and has the same type and exactly the same value after the workbook was written as ods or fods and read again. Numbers and percentages are bit-exact, dates and durations exact to the nanosecond, over their whole range.",
 ["inputs"], "all cell values of all types, at all positions, in all file formats",
 "Unit tests write a few hand-picked values; the value space (all f64, all XML text, all dates) is unbounded.",
 ["src/io/write.rs", "src/io/read.rs", "src/io/format.rs", "src/io/parse.rs", "src/value_.rs"],
 [("cell writer", "src/io/write.rs write_cell"), ("cell reader", "src/io/read.rs read_table_cell, set_value"), ("number/date/duration text forms", "src/io/format.rs, src/io/parse.rs")],
 RT, NOTE)

prop("C02", "Every cell keeps its position through repeats, spans and gaps",
 "After writing and reading, exactly those positions hold content that held it before, with the same content: repeat counts of cells and rows are expanded (or kept as repeats, if asked for), spans and matrix spans keep their size, and gaps, far positions and empty sheets stay as they are. A repeat that would run over the following data is refused with an error and never moves or overwrites cells.",
 ["inputs", "configurations"], "all sparse sheets, repeat counts, spans and read modes",
 "Tests cover a handful of layouts; row/column gap and repeat arithmetic depends on every combination.",
 ["src/io/write.rs", "src/io/read.rs", "src/sheet_.rs", "src/cell_.rs"],
 [("sheet writer", "src/io/write.rs write_sheet, split_hidden, write_empty_rows_before"), ("repeat expansion", "src/io/read.rs calc_cloned_sheet, calc_repeat_sheet")],
 RT, NOTE)

prop("C03", "Everything attached to a cell survives writing and reading",
 "Formula, cell style, validation reference, annotation and draw frames with images of a cell, with any text and attributes, are the same after writing and reading. A cell without a style gets the workbook's default style for its value type, and no other cell is affected.",
 ["inputs"], "all combinations of cell attachments with arbitrary text and attributes",
 "Tests attach one thing at a time with plain ASCII content.",
 ["src/io/write.rs", "src/io/read.rs", "src/draw.rs", "src/cell_.rs"],
 [("cell writer", "src/io/write.rs write_cell, write_annotation, write_draw_frame"), ("cell reader", "src/io/read.rs read_table_cell, read_annotation, read_draw_frame, read_image")],
 RT, NOTE)

prop("C05", "Sheet structure survives writing and reading",
 "The sheets of a workbook come back in the same order with the same names, table style, display and print flags, print ranges, header rows, header columns, and the same nested row and column groups with their collapsed state, whatever data the sheet has. The structure never displaces or duplicates cells.",
 ["inputs"], "all combinations of sheet attributes, laminar groups and header ranges over sparse data",
 "Tests check single groups over dense data; interaction of groups, headers, gaps and missing rows is combinatorial.",
 ["src/io/write.rs", "src/io/read.rs", "src/sheet_.rs"],
 [("row and column group writer", "src/io/write.rs write_sheet, write_table_columns"), ("table reader", "src/io/read.rs read_table")],
 RT, NOTE)

prop("C06", "Row and column attributes survive writing and reading",
 "Width or height, style, default cell style and visibility of every single row and column are the same after writing and reading, and rows and columns that were not touched have none. This holds for shared styles with different sizes, repeated rows, rows without data, and columns cut by groups and headers.",
 ["inputs"], "all assignments of attributes to rows and columns",
 "Tests set one or two attributes; run-length encoding of headers and style sharing depends on neighbouring rows and columns.",
 ["src/io/write.rs", "src/io/read.rs", "src/sheet_.rs"],
 [("header styles", "src/io/write.rs calc_col_header_styles, calc_row_header_styles"), ("column runs", "src/sheet_.rs dedup_colheader"), ("derived sizes", "src/io/read.rs calc_derived")],
 RT, NOTE)

prop("C07", "Styles and fonts survive writing and reading",
 "Every cell, column, row, table, paragraph, text, ruby and graphic style and every font of a workbook, whether automatic, named or default, comes back after writing and reading with the same name, kind and attributes in each property group, the same tab stops and the same conditional style maps. Writing does not change the styles of the workbook being written, and no style is lost or invented besides the reader's locale defaults.",
 ["inputs"], "all sets of styles over all families, uses and attributes",
 "Tests write a few styles and mostly do not read them back.",
 ["src/io/write.rs", "src/io/read.rs", "src/style/"],
 [("style writer", "src/io/write.rs write_styles and write_*style"), ("style reader", "src/io/read.rs read_style_style and read_*style")],
 RT, NOTE)

prop("C08", "Value formats mean what the builders say and survive a round trip",
 "A value format of any kind has exactly the parts, attributes, texts and conditional maps its builder calls stand for, in the order they were added, and has the same ones after writing and reading. The ready-made formats consist of exactly the parts their name and arguments promise, with the requested locale.",
 ["inputs", "programs"], "all sequences of builder calls for all value format kinds",
 "Tests build three or four formats; part kinds, attributes and embedded texts combine freely.",
 ["src/format/", "src/macro_attr_number.rs", "src/macro_format.rs", "src/io/write.rs", "src/io/read.rs"],
 [("builders", "src/format/builder.rs"), ("ready-made formats", "src/format/create.rs"), ("format writer/reader", "src/io/write.rs write_valuestyle; src/io/read.rs read_value_format_parts")],
 RT, NOTE)

prop("C09", "Page styles and master pages survive writing and reading",
 "Page styles with their page, header and footer properties and usage, and master pages with their display name, page style, successor and all six headers and footers (regions or free content, shown or hidden) are the same after writing and reading. A header or footer is shown unless it is switched off.",
 ["inputs"], "all page styles and master pages with arbitrary content",
 "Tests cover one header with plain text.",
 ["src/style/pagestyle.rs", "src/style/masterpage.rs", "src/io/write.rs", "src/io/read.rs"],
 [("page style reader", "src/io/read.rs read_page_style"), ("header/footer", "src/io/read.rs read_headerfooter; src/io/write.rs write_masterpage, write_regions")],
 RT, NOTE)

prop("C10", "Document metadata survives writing and reading",
 "Every metadata field - descriptive texts, people, dates, language, editing cycles and time, template, auto-reload, hyperlink behaviour, statistics of objects and user-defined values of all types - has the same value after writing and reading, with any text. The table and cell counts are those of the written workbook and the generator names this library.",
 ["inputs"], "all combinations of metadata fields and values",
 "Tests check a fixed set of metadata from one file.",
 ["src/metadata.rs", "src/io/write.rs", "src/io/read.rs"],
 [("metadata writer", "src/io/write.rs write_office_meta, calc_metadata"), ("metadata reader", "src/io/read.rs read_office_meta")],
 RT, NOTE)

prop("C11", "Workbook and sheet settings survive, foreign settings are kept",
 "The workbook settings and every view setting of every sheet are the same after writing and reading, for any sheet names; without an active table the first sheet is made active. Settings the library does not interpret, of every type and nesting, are still in the file with the same value after it was read and written.",
 ["inputs"], "all settings values, sheet names and foreign settings trees",
 "Tests check two settings of one file.",
 ["src/config.rs", "src/io/write.rs", "src/io/read.rs", "src/sheet_.rs", "src/workbook_.rs"],
 [("settings sync", "src/io/write.rs calc_config; src/io/read.rs calc_derived"), ("settings tree", "src/config.rs; src/io/read.rs read_config_item*")],
 RT + "; files with generated foreign settings checked with an independent XML parser", NOTE)

prop("C12", "Validations, conditions, scripts and event listeners are kept exactly",
 "Every condition constructor yields the ODF condition for its operands, with strings quoted so that they cannot end early. Validations with their condition, base cell, list display, empty-cell rule and error and help messages, scripts with their content and event listeners with their links are the same after writing and reading.",
 ["inputs"], "all conditions, validations, scripts and listeners with arbitrary text",
 "Tests check each constructor once with a number.",
 ["src/condition.rs", "src/validation.rs", "src/workbook_.rs", "src/io/write.rs", "src/io/read.rs"],
 [("conditions", "src/condition.rs"), ("validations", "src/io/write.rs write_content_validations; src/io/read.rs read_validations"), ("scripts", "src/io/write.rs write_scripts, write_event_listeners")],
 RT + "; differential check of the condition text", NOTE)

prop("C20", "Setting one row or column changes exactly that row or column",
 "After any history of setting and clearing style, default cell style, size or visibility of single rows and columns and of adding, showing, hiding and removing groups, on a fresh sheet or one read from a file with runs of equal rows and columns, every row and column has exactly the attributes last set for it. Neighbours and other attributes are never changed.",
 ["histories"], "all histories of row/column attribute operations",
 "Tests perform one split at fixed positions; runs split differently depending on the whole history.",
 ["src/sheet_.rs"],
 [("row and column headers", "src/sheet_.rs create_row_header, create_col_header")],
 "model-based stateful property testing with shrinking of the operation history", NOTE)

prop("C21", "Cell references survive formatting and parsing",
 "Every cell, cell-range, column-range and row-range reference, with any document, sheet name, absolute markers and any index, is formatted as text that denotes exactly that reference in OpenFormula syntax and parses back to an equal reference. Text that is not a well-formed reference is rejected, never misread and never a panic. The formula helpers and macros produce the bracketed form of the reference they are given, and containment tests of ranges are exact.",
 ["inputs"], "all references over all sheet names and all 32-bit indexes; all strings fed to the parsers",
 "Unit tests check a few dozen fixed references; sheet names that need quoting and large indexes are unbounded.",
 ["src/refs.rs", "src/refs/parser.rs", "src/refs/format.rs", "src/formula.rs"],
 [("reference formatter", "src/refs.rs format_refs"), ("reference parser", "src/refs/parser.rs")],
 "property-based round trip plus differential check against an independent reference grammar", NOTE)

prop("C04", "No text can change the markup of the written file",
 "Whatever text is given to the API as cell text, name, formula, attribute value, label, message, address or metadata, the written files are well-formed and carry exactly that text at exactly that place; no character sequence can end, add or alter an element, attribute or another value. The same holds when the file is read and written again.",
 ["inputs"], "all XML-representable texts in all places of the API that take a text",
 "Tests use plain ASCII texts; one place that forgets to escape or unescape is enough to corrupt a file.",
 ["src/io/xmlwriter.rs", "src/io/write.rs", "src/io/read.rs"],
 [("escaping", "src/io/xmlwriter.rs attr, attr_esc, text, text_esc"), ("unescaping", "src/io/read.rs")],
 "metamorphic property-based testing: hostile text against harmless marker, documents compared by an independent strict XML parser", NOTE)

prop("C13", "The three file formats carry the same workbook",
 "A workbook written as packed ods, uncompressed ods or flat fods reads back as the same workbook: the same cells, structure, styles, formats, pages, validations, metadata and settings. Converting from one format to another any number of times changes nothing more.",
 ["inputs", "histories"], "all workbooks and all chains of format conversions",
 "Tests write fods and ods of different workbooks and never compare them.",
 ["src/io/write.rs", "src/io/read.rs"],
 [("ods and fods writer", "src/io/write.rs write_ods_content, write_ods_styles, write_fods_impl"), ("fods reader", "src/io/read.rs read_fods_impl")],
 "differential property-based testing between the file formats", NOTE)

prop("C14", "Content the library does not interpret is passed through unchanged",
 "Parts of a document that the library does not interpret - change tracking, calculation settings, label ranges, named expressions, database ranges, pivot tables, links, consolidation, scenarios, forms, conditional formats and shapes, with anything inside them including foreign namespaces - are in the written file with the same elements, attributes, texts and order, once each, when a file is read and written, in ods and in fods. The interpreted content around them is not affected.",
 ["inputs"], "all documents with generated foreign content at every place where it is kept",
 "Tests only check that some such files can be opened.",
 ["src/io/read.rs", "src/io/write.rs", "src/xmltree.rs", "src/workbook_.rs", "src/sheet_.rs"],
 [("kept tags", "src/io/read.rs read_xml; src/workbook_.rs extra; src/sheet_.rs extra"), ("namespaces", "src/io/read.rs read_namespaces; src/io/write.rs write_xmlns")],
 "property-based testing with generated documents, input and output compared by an independent XML parser", NOTE)

prop("C15", "Writing is repeatable and does not disturb the workbook",
 "Writing a workbook leaves everything the accessors show unchanged, apart from the document statistics, the choice of an active sheet if there was none, and row and column styles made to fit the sizes in use. Writing it twice, or writing a clone, gives the same content, and once a workbook has been read, any number of further write-read cycles gives the same workbook again.",
 ["inputs", "histories"], "all workbooks, all numbers of repetitions",
 "Tests write each workbook once.",
 ["src/io/write.rs", "src/io/read.rs", "src/workbook_.rs"],
 [("preparation for writing", "src/io/write.rs sanity_checks, calculations, calc_*")],
 "property-based testing: idempotence and invariance over repeated writes", NOTE)

prop("C17", "Read options and entry points do exactly what they say",
 "All ways to read and to write - path, buffer, stream, reading options, writer options - give the same workbook. Reading only content gives the same cells without the parts that are skipped, ignoring empty cells drops exactly the cells that have nothing but a style, and keeping repeats as repeats describes the same cells as cloning them.",
 ["inputs", "configurations"], "all workbooks under all combinations of read options and entry points",
 "Tests call each entry point with one file and default options.",
 ["src/io/read.rs", "src/io/write.rs"],
 [("options", "src/io/read.rs OdsOptions, OdsContext; src/io/write.rs OdsWriteOptions")],
 "differential property-based testing between options and entry points", NOTE)

prop("C25", "The written file means the workbook to an independent reader",
 "Read by an independent, strict XML reader following the ODF specification, a written file has all parts in their place, every used namespace declared and consistent style references, and its tables, rows, columns, repeats, spans, groups, headers, values with their types, formulas, styles, sizes and metadata are those of the workbook. This does not rely on the library's own reader.",
 ["inputs"], "all workbooks in all file formats",
 "Tests read with the same library that wrote, so that symmetric mistakes cancel out.",
 ["src/io/write.rs", "src/io/format.rs", "src/io/xmlwriter.rs"],
 [("writer", "src/io/write.rs"), ("text forms", "src/io/format.rs")],
 "property-based testing against an independent interpreter of the written XML", NOTE)

prop("C26", "The package is a correct ODF container",
 "A written ods file has an uncompressed media type as its first entry, a manifest that lists exactly the files in the package with their media types, and every additional file of the workbook byte for byte. Packages packed in other ways - any order, compression, missing optional parts - read as the same workbook and keep their additional files.",
 ["inputs"], "all workbooks with all sets of additional files; all packings",
 "Tests open files made by one or two programs.",
 ["src/io/write.rs", "src/io/read.rs", "src/manifest.rs"],
 [("container writer", "src/io/write.rs write_ods_impl, create_manifest"), ("container reader", "src/io/read.rs read_ods_impl, read_ods_manifest, read_ods_extras")],
 "property-based testing against an independent zip and manifest reader", NOTE)

prop("C16", "No input makes the reader panic or hang",
 "Reading any bytes at all - damaged or hand-made XML, damaged or hand-made packages, documents with any values in any attribute - ends with a workbook or an error, never with a panic, and in time in proportion to the content described. A workbook that was read can be inspected and written without a panic, and what was written can be read again. Content that asks for millions of copies of a cell, and elements nested many thousands deep, are left out.",
 ["inputs"], "all byte strings as fods, ods package or xml part, under all read options",
 "Tests open well-formed files; damaged and hostile input is unbounded.",
 ["src/io/read.rs", "src/io/parse.rs", "src/xlink.rs", "src/config.rs", "src/manifest.rs"],
 [("reader", "src/io/read.rs"), ("value parsers", "src/io/parse.rs")],
 "structure-aware mutation fuzzing of generated documents, byte-level mutation, and mutated packages; oracle: no panic, no timeout, re-readable", NOTE)

prop("C24", "Every spelling the ODF format allows reads as the same workbook",
 "Documents that differ only in spelling - order of attributes, quotes, white space in tags and between elements, comments and processing instructions, CDATA sections, character references for reserved and non-ASCII characters, expanded or self-closed empty elements, grouping elements, runs of repeated cells, rows and columns against single ones, other spellings of numbers, dates and durations, unknown elements, attributes and shapes - read as the same workbook. The cells of a hand-written document are those an independent interpreter of the ODF format finds.",
 ["inputs"], "all documents in all equivalent spellings",
 "Tests read the files of two or three programs, each of which has only one spelling.",
 ["src/io/read.rs", "src/io/parse.rs"],
 [("reader", "src/io/read.rs"), ("value parsers", "src/io/parse.rs")],
 "metamorphic property-based testing: a document against its respelled twin; differential testing of generated documents against an independent interpreter", NOTE)
prop("C18", "A cell holds exactly what was last put into it",
 "After any sequence of setting, clearing, adding, removing and copying values, styles, formulas, spans, repeats, validations and attachments at any positions, every cell of a sheet answers with what was last put there, and all other cells, the size of the used area and copies taken earlier are unaffected. Cell contents taken out and put back elsewhere carry everything with them.",
 ["histories", "inputs"], "all sequences of operations on a sheet",
 "Tests make a handful of calls on small sheets; interference between operations needs histories.",
 ["src/sheet_.rs", "src/cell_.rs"],
 [("cell access", "src/sheet_.rs"), ("cell data", "src/cell_.rs")],
 "stateful model-based testing against a reference map of cells", NOTE)
prop("C19", "Iterators visit exactly the cells of the range, in order",
 "Iterating a sheet, a range of it, its rows or its columns yields every cell in the requested part exactly once, in order, with its own content, and nothing else; forwards, backwards and mixed. Announced lengths are true, and looking ahead shows what comes next without moving.",
 ["inputs", "histories"], "all sheets, all ranges, all sequences of iterator calls",
 "Tests iterate one or two small sheets from the front.",
 ["src/sheet_.rs"],
 [("iterators", "src/sheet_.rs CellIter, Range")],
 "model-based property testing of iterator call sequences against a filtered reference list", NOTE)
prop("C22", "Conversions to and from cell values are exact",
 "A value of any supported type turned into a cell value comes back equal from the matching accessor: integers within the exact range of the number type, floats, decimals to their precision, dates, times and durations, texts, optional values. Accessors of another type give the default; out of range numbers are limited to the range of the target, and the text of a formatted cell is its characters without the markup.",
 ["inputs"], "all values of all supported types",
 "Tests convert a few small constants.",
 ["src/value_.rs", "src/text.rs", "src/xmltree.rs"],
 [("conversions", "src/value_.rs")],
 "property-based testing of conversions against exact arithmetic and the round trip", NOTE)
prop("C23", "Registries, sheet list and locale defaults stay consistent",
 "After any sequence of adding, naming, replacing and removing styles, formats, fonts, pages, validations and sheets, each name leads to what was last registered under it, generated names never take a name already in use, and the list of sheets is what the insertions, removals and exchanges make it. Copies are independent, and every locale brings complete default styles and formats of the right kind with the date order of the locale, two decimals, and durations beyond a day shown in full.",
 ["histories", "inputs", "configurations"], "all histories of registrations, all locales",
 "Tests register one or two things, in one locale.",
 ["src/workbook_.rs", "src/locale", "src/defaultstyles.rs", "src/style"],
 [("registries", "src/workbook_.rs"), ("locale defaults", "src/locale")],
 "stateful model-based testing against reference maps", NOTE)
prop("C27", "Typed setters produce the attribute and value ODF has for them",
 "Whatever is set through the typed setters of styles, page styles, headers and footers, fonts, tab stops, annotations, frames and images, in any order and any number of times, the written file has exactly the ODF attributes these settings stand for, in the right property group, with the right value in ODF spelling, and the last call wins. Text builders give the element they are named for, with the attributes and content in order, and lengths and flags read back as they were set.",
 ["inputs", "histories"], "all sequences of setter calls with all values, all style families",
 "Tests use a dozen of several hundred setters, and look at the result in an office program at best.",
 ["src/macro_attr_fo.rs", "src/macro_attr_style.rs", "src/macro_attr_draw.rs", "src/macro_attr_svg.rs", "src/macro_attr_table.rs", "src/macro_attr_text.rs", "src/macro_style.rs", "src/style", "src/draw.rs", "src/text.rs", "src/xlink.rs"],
 [("setters", "src/macro_attr_style.rs"), ("units", "src/style/units.rs"), ("text builders", "src/text.rs"), ("drawing attributes", "src/draw.rs")],
 "property-based testing of setter sequences against a table of the ODF attributes, observed in the written file by an independent XML parser", NOTE)

prop("C28", "A failing storage is never taken for success",
 "Whatever goes wrong with the storage while a workbook is written or read - an error at any operation, once or lasting, no more space, data held back in a buffer, a file that cannot be opened - the call ends with an error, or it has delivered exactly the whole workbook; partial data is never reported as success or taken for a missing part. Storage that transfers in pieces or is interrupted makes no difference, and after an error the workbook is intact and can be written again.",
 ["inputs", "fault_sequences"], "all workbooks, file formats and entry points, with faults at all operations and bytes",
 "Tests only use healthy files and buffers; which operation fails, and how, is an unbounded set of fault points.",
 ["src/io/write.rs", "src/io/read.rs", "src/io/xmlwriter.rs"],
 [("entry points", "src/io/write.rs write_ods, write_ods_to, write_fods, write_fods_to, OdsWriteOptions"), ("optional parts of the package", "src/io/read.rs read_ods_impl"), ("errors of the xml writer", "src/io/xmlwriter.rs")],
 "property-based fault injection: generated workbooks against writers, readers and size-limited files with generated faults; oracle: success means the complete workbook", NOTE)

prop("C01", "Conversion always succeeds",
     "For every input text and every combination of settings, converting it returns a string: the converter never "
     "panics, aborts or hangs. This includes unbalanced, nested or truncated markup, arbitrary Unicode, control characters and any line ending.",
     [IN, CF], "all texts, all settings", FIX + "a panic needs an unforeseen combination of fragments.",
     [P, B, T, U, H], [("regular expressions and slicing of the text at their matches", P), ("do_tag_br", P), ("UrlString", U)])
prop("C02", "Restricted mode lets none of the author's HTML through",
     "In restricted mode, whatever the text is, every tag in the result is made by the converter for a Textile construct: an element of the "
     "Textile vocabulary (p, br, h1-h6, pre, code, blockquote, a, img, span, sup, sub, strong, b, em, i, del, ins, cite, abbr, acronym, lists, tables) "
     "with the attributes Textile gives it, and no comment or script ever appears. HTML tags, comments and `<`/`>` written by the author show up as that very text.",
     [IN, CF], "all texts in restricted mode, combined with all other settings", FIX + "only a few restricted documents are among them.",
     [P, B, T, H], [("encode_html of the whole input", "Textile::parse"), ("encoding again what was decoded", P)])
prop("C03", "Restricted mode ignores classes, ids and styles of the author",
     "In restricted mode no class, id or style written by the author (on blocks, phrases, links, images, lists, tables, cells, notes, code) reaches the result; "
     "the only ids are the generated identifiers of footnotes and notes, the only classes are footnote, caps, align-left/right/center and the language of a code block, "
     "the only styles are text alignment, vertical alignment and padding. Language attributes, alignment, padding and cell spans keep working.",
     [IN, CF], "all constructs that take attributes, all attribute lists, restricted mode", FIX + "restricted mode is tested on a dozen documents.",
     [B, P, T], [("BlockAttributes::parse(.., restricted)", B)])
prop("C04", "Only URLs of allowed schemes become links, images or citations",
     "Whatever the text is, the address of every link, image and citation made by the converter is relative or has an allowed scheme: "
     "http, https, ftp, mailto, and, outside of restricted mode, also file, tel, callto, sftp, data. A link or an image with any other scheme "
     "(javascript:, vbscript:, in any letter case) is left as plain text, a citation of that kind is dropped.",
     [IN, CF], "all URLs in all places where Textile takes one (links, aliases, images, image links, citations of blocks and phrases)",
     FIX + "schemes are tested for one kind of link.", [P, B, U], [("is_valid_url", P), ("RESTRICTED_URL_SCHEMES, UNRESTRICTED_URL_SCHEMES", P)])
prop("C05", "Text in attributes is escaped exactly once and can't leave its attribute",
     "Titles and addresses of links and images, alternative texts, explanations of acronyms, citations, table summaries, classes, styles and languages appear in the result as "
     "attribute values whose decoded form is what the author wrote, with quotes, `<`, `>`, `&` and non-ASCII characters included (code, verbatim phrases and HTML comments are not to be used in them). No text of the author can end the attribute "
     "it is placed in, add another attribute or another tag; this holds in restricted mode and outside of it.",
     [IN, CF], "all texts in all the positions that end up in an attribute, both modes", FIX + "quoting in attributes is tested for one attribute.",
     [P, B, H, U], [("join_html_attributes, quoteattr", H), ("restore_after", P), ("UrlString::to_html_string", U)])
prop("C06", "Internal placeholders never reach the result",
     "The converter sets pieces of a document aside under internal names and puts them back at the end: whatever the text is, no such name (`textileRef:`...`:shelve`, `:url`, `:ospan`, `:cspan`, "
     "`:glyph:`, `linkStartMarker:`) made by the converter remains in the result, and each piece comes back exactly once in its place. Text written by the author which looks "
     "like such a name refers to nothing: it can't duplicate, replace or remove other parts of the document.",
     [IN, CF], "all texts, including those which mention the internal names; all settings", FIX + "none of them mentions an internal name.",
     [P], [("shelve, retrieve, store_tags, retrieve_tags, retrieve_urls", P), ("removal of the uid from the input", "Textile::parse")],
     [("shelf, ref_cache", "pieces set aside", "ParserState")])
prop("C07", "The result depends only on the text and the effective settings",
     "Converting a text gives the same result each time, however many texts the converter has processed before, in whichever order its settings were made, whether a setting was changed back and forth, "
     "and whichever converters are used besides it; only the last value of each setting matters. The identifier prefix (set_uid) influences nothing but the generated identifiers of footnotes and notes.",
     [HI, CF], "all histories of set_*/parse calls on several converters", FIX + "each test uses a fresh converter once.",
     [P], [("ParserState::new per conversion", "Textile::parse"), ("regex_cache", "Textile"), ("set_uid", P)],
     [("regex_cache", "expressions which depend on the uid", "Textile"), ("uid, link_prefix", "identifier prefix", "Textile")])
prop("C08", "Footnote references and footnotes are linked to each other",
     "Every reference `[n]` after a word becomes a superscript number linked to the footnote `fnn.`, `[n!]` the number without a link; the first reference to a footnote carries "
     "the identifier the footnote links back to (`fnn^.`), repeated references lead to the same footnote, different numbers never share identifiers, and no identifier occurs twice. The footnote itself "
     "is a paragraph of class footnote with its number, its text and its own attributes.",
     [IN, HI], "all sequences of references and footnotes, in all kinds of blocks, with all attributes", FIX + "they have single references in paragraphs.",
     [P, B], [("footnote_ref", P), ("fn blocks", "Block::new")], [("footnotes", "number -> identifier", "ParserState")])
prop("C09", "Endnotes are numbered, listed and linked consistently",
     "Endnotes `[#label]` are numbered in the order of their first references, every reference to a label shows the same number, and a note list has one item per referenced note in that order (undefined notes are reported in it), "
     "followed with `+` by unreferenced ones in the order of labels; an item has links back to all its references, the first one (`^`) or none (`!`), marked from the character the list asks for. The first definition of a label wins, definitions may come "
     "before or after references and lists and leave nothing in their place, and no identifier occurs twice in a document with one list.",
     [IN, HI], "all sequences of references, definitions and lists", FIX + "they have few notes in one order.",
     [P], [("note_ref, parse_note_defs, place_note_lists, make_back_ref_link", P)], [("notes, note_index, unreferenced_notes, notelist_cache", "endnotes met so far", "ParserState")])
prop("C10", "Lists come out with the structure and numbering they are written with",
     "Lines starting with `*`, `#` (nested by repeating the marks, in any mixture), `;`/`:` or written as `- term := definition` become exactly one correctly nested list with one item per line, items keeping their text, order, inline markup and attributes "
     "(those of the first item belong to the list). An ordered list starts at 1, at the number given (`#5`), or (`#_`) continues after the last item of the previous list with the same marks.",
     [IN, HI], "all list shapes, item texts, attributes and sequences of lists", FIX + "list shapes are unbounded.",
     [P], [("textile_lists, redcloth_list, do_tag_br", P)], [("ol_starts", "list marks -> next number", "ParserState")])
prop("C11", "Tables come out with the rows, cells, sections and spans they are written with",
     "A block of `|cell|cell|` rows becomes a table with exactly these rows and cells in order: header cells (`_.`), column and row spans, alignment, attributes of cells, rows and of the table, head/body/foot sections (`|^.`, `|-.`, `|~.`), "
     "column groups, a caption and a summary. The text of a cell is processed as inline Textile (including line breaks); text before or after the table in the same document is not affected.",
     [IN], "all grids, cell texts, attributes, sections, captions, column groups", FIX + "table shapes are unbounded.",
     [T, P, B], [("process_table", T), ("table", P)])
prop("C12", "Every block of a document becomes the element its tag asks for, in order",
     "Blocks separated by blank lines become, in order, paragraphs, headings h1-h6, quotations (with citation), code, preformatted text, verbatim text or nothing (`###.` comments); text without a tag is a paragraph. "
     "An extended block (`bq..`, `p..`, `h2..`, `bc..`, `pre..`, `notextile..`, `###..`) also takes the untagged blocks that follow, with the same attributes, and ends right before the next tagged block or at the end of the document; an ordinary block affects nothing after it.",
     [IN, HI], "all sequences of blocks", FIX + "sequences of blocks are unbounded.", [P, B], [("block", P), ("Block::new", B)],
     [("ext, tag, atts, cite, eat", "the open extended block", "ParserState::block")])
prop("C13", "Attribute lists are applied completely and to the right element",
     "Class, id, style, language, alignment, padding, vertical alignment and spans, in any admissible combination and order, on any construct that takes them (blocks, phrases, links, images, lists, footnotes, tables, rows, cells, code), "
     "give exactly the corresponding HTML attributes, each once, on that element, and disappear from the text. For a code block the language goes to its code element as a class.",
     [IN], "all admissible attribute lists on all constructs", FIX + "combinations of attributes are many.", [B, P, T], [("BlockAttributes::parse, html_attrs", B)])
prop("C14", "Phrase modifiers become the matching elements, nested as written",
     "`*strong*`, `**b**`, `_em_`, `__i__`, `??cite??`, `-del-`, `+ins+`, `^sup^`, `~sub~`, `%span%`, with attributes, next to punctuation and brackets, within all kinds of blocks, or within a word in square brackets, become exactly these elements around exactly that text; "
     "modifiers may contain other modifiers. Marks within words, surrounded by spaces or without a counterpart stay as they are.",
     [IN], "all trees of phrases (nested at most 5 deep), contexts and blocks", FIX + "nesting and neighbourhood are unbounded.", [P], [("span, span_re, store_tags, retrieve_tags", P)])
prop("C15", "Links get exactly the text, title, attributes and address they are written with",
     "`\"(class)text(title)\":url` becomes a link with this text (processed for phrases, images and typography), title, attributes, and this URL with nothing more: punctuation and unbalanced brackets following the URL stay in the text, balanced ones belong to the URL. "
     "`\"$\":url` shows the URL itself, square brackets around a link delimit it within a word, and quoted text which is no link remains quoted text.",
     [IN], "all link texts, URLs, titles, contexts, sequences of links", FIX + "contexts of links are unbounded.", [P, U], [("mark_start_of_links, replace_links", P), ("UrlBits", U)])
prop("C16", "Link aliases resolve to the address they are defined with",
     "A link to an alias `[alias]url` leads to the URL given by the last definition of the alias, wherever in the document the definition is (before or after the link, among other text of a block, on a line of its own), for any number of links and aliases; "
     "the definition leaves nothing in the result. A link to an undefined alias keeps the alias as a relative address.",
     [IN, HI], "all sequences of definitions and links", FIX + "definitions are few and in one order.", [P], [("get_refs, retrieve_urls", P)], [("urlrefs", "alias -> URL", "ParserState")])
prop("C17", "Images get exactly the address, title, alignment, attributes and link they have",
     "`!>(class)url(title)!:href` becomes an image with this URL, the title as both title and alternative text (an empty one without it), this alignment and attributes, within a link to href if there is one; it may stand wherever text may. "
     "What is not a complete image stays as text.",
     [IN, CF], "all parts of an image, contexts, blocks", FIX + "combinations are many.", [P, B], [("image", P)])
prop("C18", "Code and preformatted text is shown verbatim",
     "Text within `@code@`, `<code>`, `<pre>`, `bc.` and `pre.` blocks (including extended ones with blank lines) appears character by character in the result, escaped exactly once: no markup, typography, link, image, note or HTML tag within it is interpreted, in restricted mode as well as outside of it. "
     "Text around it is processed as usual.",
     [IN, CF], "all contents of code in all blocks, both modes", FIX + "contents of code are unbounded.", [P, B], [("code, no_textile, shelve", P), ("bc, pre", B)])
prop("C19", "Outside of restricted mode the author's HTML passes through unchanged",
     "Outside of restricted mode, tags, comments and character references written by the author appear in the result exactly as written, wherever text may stand: no typography reaches into a tag, nothing at all into a comment, and Textile between the tags still works. "
     "A block with a block-level tag, a comment, `<hr>` or image of its own gets no paragraph around it, a phrase does. A block wrapped in a tag that is neither is left without a paragraph, and with set_raw_blocks(true) it is copied as it is.",
     [IN, CF], "all HTML elements, comments and references in all blocks and contexts; raw_blocks on and off", FIX + "the HTML an author writes is arbitrary.",
     [P, H], [("has_raw_text, is_raw_block", H), ("get_html_comments, glyphs, block", P)])
prop("C20", "Typography replaces what it should and nothing else",
     "Straight quotes become opening or closing ones, apostrophes, `...`, `--`, ` - `, `2 x 3`, `(c)`, `(r)`, `(tm)`, fractions, `[o]`, `(+/-)` become the typographic signs, `ABC(title)` becomes an acronym with the explanation as its title and three or more capitals get their span, "
     "in any block, within phrases and links, next to punctuation, in all modes alike. Everything which only resembles them stays as written.",
     [IN, CF], "all typographic constructs, their neighbourhoods and hosts, all modes", FIX + "what stands around a sign is unbounded.",
     [P], [("make_glyph_replacers, dyn_glyph_replacers, glyphs, glyph_quoted_quote", P)])
prop("C21", "The layout of a document makes no difference, line breaks within blocks do",
     "Which line ends a document uses (LF, CRLF or CR), how many blank lines (with or without spaces or tabs in them) separate its blocks, and whether blank lines precede or follow it, changes nothing in the structure and text of the result. "
     "A line break within a paragraph, heading, quotation, list item, cell or footnote is a line break of the result; within code it stays a line end.",
     [IN], "all documents in all layouts", FIX + "layouts are hardly varied in them.",
     [P], [("normalize_newlines", P), ("block", P), ("do_tag_br, do_p_br", P)])
prop("C22", "Lite mode leaves everything but paragraphs, quotations and code blocks as text",
     "With set_lite(true) only `p.`, `bq.` and `bc.` are block tags: headings, lists, tables, footnote blocks, preformatted and verbatim blocks become ordinary paragraphs which show their markup, and inline code and verbatim phrases are not interpreted either, for any text whatsoever. "
     "Phrases, links, images, notes and typography work as usual in all of them.",
     [IN, CF], "all texts in lite mode, combined with the other settings", FIX + "lite mode is tested on few documents.", [P], [("graf, block", P), ("BLOCK_TAGS_LITE_RE_S", P)])
prop("C23", "Without block tags or images there are no blocks or images",
     "With set_block_tags(false) the result of any text has no blocks, links, images, lists or tables: only phrases and typography are processed and everything else, line ends included, stays as written. "
     "With set_images(false) no image is made from any text, images stay as they are written and the rest of the document is the same as with them.",
     [IN, CF], "all texts with set_block_tags(false) or set_images(false)", FIX + "these settings are tested on few documents.", [P], [("parse", "Textile::parse"), ("graf", P)])
prop("C24", "HTML5 and XHTML results differ only in their spelling",
     "The two kinds of HTML have the same content: XHTML spells line breaks as `<br />` and acronyms as acronym elements, HTML5 as `<br>` and abbr. Alignment of images is a class in HTML5 and an attribute in XHTML unless set_align_class decides otherwise, "
     "and this holds for any text and any combination with the other settings.",
     [IN, CF], "all texts, both kinds, all other settings", FIX + "most of them are checked in one kind only.", [P], [("proper_br_tag, set_html_kind, set_align_class", P), ("make_glyph_replacers", P)])
prop("C25", "Constructs keep their meaning in combination",
     "A document made of any number of blocks (paragraphs, headings, quotations, code, preformatted text, footnotes, notes and note lists, lists, definition lists, tables, link aliases, comments, HTML), "
     "each holding any combination of phrases, links, images, codes, references, acronyms and typographic signs, nested in each other, comes out as the sequence of its blocks in which every construct is "
     "rendered as it is on its own: neighbours, hosts, position and length of the document change nothing, apart from what Textile shares between blocks (extended blocks, the numbers of notes and continued lists, aliases). This holds under every setting.",
     [IN, CF], "all documents composed of the constructs, all settings", FIX + "they show a construct mostly by itself, in short documents.",
     [P, B, T], [("Textile::parse, ParserState::block", P), ("the order of the passes over a text", P), ("the shelf", P)],
     [("shelf, ref_cache, notes, footnotes, ol_starts, urlrefs", "what blocks share", "ParserState")])
prop("C26", "Every link made of Textile carries the rel value asked for, and only those do",
     "With set_rel(value) every link made from a Textile link or from the link of an image has exactly this rel attribute, whatever characters the value has, in all texts and modes; links between references and notes have none. Without it no link has a rel attribute.",
     [IN, CF], "all texts with links; all values of rel", FIX + "rel is tested on one link.", [P], [("set_rel", P), ("replace_links, image", P)])
prop("C27", "With the sanitizer on only its tags and attributes are left",
     "With set_sanitize(true), whatever the text and the HTML in it, the result has only tags and attributes the sanitizer allows, no scripts, styles, event handlers, and no links or images with an address of a forbidden scheme; the content of removed elements other than script and style stays as text. "
     "Documents that have nothing else are the same as without the sanitizer except for the attributes it removes (class, id, style).",
     [IN, CF], "all texts and HTML with the sanitizer on", FIX + "the sanitizer is tested on one document.", [P], [("set_sanitize, adjust_sanitizer", P), ("parse", "Textile::parse")])
prop("C28", "The tags of the result are properly nested",
     "Whatever the text is, the tags the converter makes are balanced and properly nested: every element is closed, in the reverse order of opening, "
     "in restricted mode for any text at all, and outside of it for any text in which the author writes no HTML himself. This includes broken, overlapping and truncated markup in any combination.",
     [IN, CF], "all texts (without HTML of the author outside of restricted mode), all settings", FIX + "broken markup is hardly among them.",
     [P, B, T], [("span, store_tags, retrieve_tags", P), ("textile_lists, redcloth_list", P), ("process_table", T), ("block", P)])
prop("C29", "No word of the text is lost, repeated or moved",
     "Every word of a text shows up in the result, in the text or in the value of an attribute (an address, a title), and the words of the result's text are in the order they were written in, none of them twice. "
     "This holds whatever broken, overlapping or truncated markup stands between them, as long as it is not markup that is there to hide or move text (notes, link aliases, table sections, HTML of the author outside of restricted mode).",
     [IN, CF], "all texts whose markup doesn't hide or move text, all settings but the sanitizer", FIX + "broken markup is hardly among them.",
     [P, B, T], [("span, glyphs, shelve, retrieve", P), ("textile_lists, redcloth_list", P), ("process_table", T), ("block", P)])
prop("C30", "Image sizes come from the images themselves, and only when asked for",
     "With set_getting_image_size(true) an image of an absolute address whose beginning can be read gets the width and height it really has, whatever its format, place in the text and the way it is delivered; an image that cannot be fetched or read, or whose address is relative, is shown without them, and the conversion always succeeds. "
     "The addresses asked are those of the images shown, as they are written; without the setting nothing is ever asked.",
     [IN, CF], "all texts with images, all answers of the server; the requests made during a conversion", FIX + "fetching sizes isn't tested at all.", [P], [("get_image_size, image", P)])

"""What the options mean: presets per mode, which pass each option switches, parser flags."""

# order: CommonMark, GFM, MultiMarkdown, Kramdown, Unified   (documented in man/apex.1.md, docs/OUTPUT_MODES.md,
# docs/USER_GUIDE.md and the comments of apex_options_for_mode)
PRESETS = {
 "mode": [0, 1, 2, 3, 4],
 "enable_plugins": [0] * 5,
 "enable_tables": [0, 1, 1, 1, 1],
 "enable_footnotes": [0, 0, 1, 1, 1],
 "enable_definition_lists": [0, 0, 1, 1, 1],
 "enable_smart_typography": [0, 0, 1, 1, 1],
 "enable_math": [0, 0, 1, 1, 1],
 "enable_critic_markup": [0, 0, 0, 0, 1],
 "enable_wiki_links": [0] * 5,
 "enable_task_lists": [0, 1, 0, 0, 1],
 "enable_attributes": [0, 0, 0, 1, 1],
 "enable_callouts": [0, 0, 0, 0, 1],
 "enable_marked_extensions": [0, 0, 0, 1, 1],
 "enable_divs": [0, 0, 0, 0, 1],
 "enable_spans": [0, 0, 0, 0, 1],
 "critic_mode": [2] * 5,
 "strip_metadata": [1] * 5,
 "enable_metadata_variables": [0, 0, 1, 0, 1],
 "enable_metadata_transforms": [0, 0, 0, 0, 1],
 "enable_file_includes": [0, 0, 1, 0, 1],
 "max_include_depth": [10] * 5,
 "base_directory": [0] * 5,
 "output_format": [0] * 5,
 "unsafe": [0, 0, 1, 1, 1],
 "validate_utf8": [1] * 5,
 "github_pre_lang": [1] * 5,
 "standalone": [0] * 5,
 "pretty": [0] * 5,
 "stylesheet_paths": [0] * 5,
 "stylesheet_count": [0] * 5,
 "document_title": [0] * 5,
 "theme_name": [0] * 5,
 "terminal_width": [0] * 5,
 "hardbreaks": [0, 1, 0, 0, 0],
 "nobreaks": [0] * 5,
 "generate_header_ids": [1] * 5,
 "header_anchors": [0] * 5,
 "id_format": [0, 0, 1, 2, 0],
 "relaxed_tables": [0, 0, 0, 1, 1],
 "caption_position": [1] * 5,
 "per_cell_alignment": [0, 0, 0, 0, 1],
 "allow_mixed_list_markers": [0, 0, 1, 0, 1],
 "allow_alpha_lists": [0, 0, 0, 0, 1],
 "enable_sup_sub": [0, 0, 1, 0, 1],
 "enable_strikethrough": [0, 1, 0, 0, 1],
 "enable_autolink": [0, 1, 1, 1, 1],
 "obfuscate_emails": [0] * 5,
 "embed_images": [0] * 5,
 "enable_image_captions": [0, 0, 1, 0, 1],
 "title_captions_only": [0] * 5,
 "enable_citations": [0, 0, 1, 0, 1],
 "bibliography_files": [0] * 5,
 "csl_file": [0] * 5,
 "suppress_bibliography": [0] * 5,
 "link_citations": [0] * 5,
 "show_tooltips": [0] * 5,
 "nocite": [0] * 5,
 "enable_indices": [0, 0, 0, 0, 1],
 "enable_mmark_index_syntax": [0, 0, 0, 0, 1],
 "enable_textindex_syntax": [0, 0, 0, 0, 1],
 "enable_leanpub_index_syntax": [0, 0, 0, 0, 1],
 "suppress_index": [0] * 5,
 "group_index_by_letter": [1] * 5,
 "wikilink_space": [0] * 5,
 "wikilink_extension": [0] * 5,
 "wikilink_sanitize": [0] * 5,
 "script_tags": [0] * 5,
 "embed_stylesheet": [0] * 5,
 "enable_aria": [0] * 5,
 "enable_emoji_autocorrect": [0, 0, 0, 0, 1],
 "code_highlighter": [0] * 5,
 "code_line_numbers": [0] * 5,
 "highlight_language_only": [0] * 5,
 "enable_widont": [0] * 5,
 "code_is_poetry": [0] * 5,
 "enable_markdown_in_html": [0, 0, 1, 1, 1],
 "random_footnote_ids": [0] * 5,
 "enable_hashtags": [0] * 5,
 "style_hashtags": [0] * 5,
 "proofreader_mode": [0] * 5,
 "hr_page_break": [0] * 5,
 "title_from_h1": [0] * 5,
 "page_break_before_footnotes": [0] * 5,
 "input_file_path": [0] * 5,
 "ast_filter_commands": [0] * 5,
 "ast_filter_count": [0] * 5,
 "ast_filter_strict": [1] * 5,
 "progress_callback": [0] * 5,
 "progress_user_data": [0] * 5,
}
# apex_options_default() is Unified except for these
DEFAULT_DIFF = {"enable_citations": 0, "enable_indices": 0, "enable_mmark_index_syntax": 0, "enable_textindex_syntax": 0,
                "enable_leanpub_index_syntax": 0}
MODES = ["CommonMark", "GFM", "MultiMarkdown", "Kramdown", "Unified"]

# option -> passes that must do nothing while it is off
GATES = {
 "enable_plugins": ["apex_plugins_load", "apex_plugins_run_text_phase"],
 "enable_tables": ["apex_inject_table_attributes", "apex_process_relaxed_tables", "apex_remove_table_separator_rows",
                   "apex_convert_relaxed_table_headers", "apex_process_headerless_tables", "apex_process_advanced_tables",
                   "create_advanced_tables_extension", "apex_process_inline_tables", "apex_preprocess_table_captions",
                   "apex_preprocess_table_colspans"],
 "enable_footnotes": ["apex_process_inline_footnotes", "create_advanced_footnotes_extension", "apex_process_advanced_footnotes"],
 "enable_definition_lists": ["apex_process_definition_lists", "create_definition_list_extension"],
 "enable_math": ["create_math_extension"],
 "enable_critic_markup": ["apex_process_critic_markup_text"],
 "enable_wiki_links": ["apex_process_wiki_links_in_tree"],
 "enable_callouts": ["apex_process_callouts_in_tree"],
 "enable_marked_extensions": ["apex_process_toc", "apex_process_special_markers", "apex_remove_empty_paragraphs"],
 "enable_divs": ["apex_process_fenced_divs", "apex_postprocess_fenced_divs_html"],
 "enable_spans": ["apex_preprocess_bracketed_spans"],
 "enable_metadata_variables": ["apex_metadata_replace_variables"],
 "enable_metadata_transforms": ["apply_transform_chain", "apply_transform"],
 "enable_file_includes": ["apex_process_includes"],
 "standalone": ["apex_wrap_html_document"],
 "pretty": ["apex_pretty_print_html"],
 "generate_header_ids": ["apex_inject_header_ids", "apex_process_manual_header_id"],
 "relaxed_tables": ["apex_process_relaxed_tables", "apex_convert_relaxed_table_headers"],
 "allow_mixed_list_markers": ["apex_merge_mixed_list_markers"],
 "allow_alpha_lists": ["apex_preprocess_alpha_lists", "apex_postprocess_alpha_lists_html"],
 "enable_sup_sub": ["apex_process_sup_sub"],
 "enable_autolink": ["apex_preprocess_autolinks"],
 "obfuscate_emails": ["apex_obfuscate_email_links"],
 "embed_images": ["apex_embed_images"],
 "enable_indices": ["apex_process_index_entries", "apex_generate_index_html", "apex_insert_index", "apex_render_index_markers"],
 "enable_mmark_index_syntax": ["parse_mmark_index"],
 "enable_textindex_syntax": ["parse_textindex"],
 "enable_leanpub_index_syntax": ["parse_leanpub_index"],
 "enable_aria": ["apex_apply_aria_labels"],
 "enable_emoji_autocorrect": ["apex_autocorrect_emoji_names"],
 "code_highlighter": ["apex_apply_syntax_highlighting"],
 "enable_widont": ["apex_apply_widont_to_headings"],
 "code_is_poetry": ["apex_add_poetry_class_to_code_blocks"],
 "enable_markdown_in_html": ["apex_process_html_markdown"],
 "random_footnote_ids": ["apex_add_hash_to_footnote_ids"],
 "hr_page_break": ["apex_replace_hr_with_pagebreak"],
 "title_from_h1": ["apex_extract_first_h1_text"],
 "bibliography_files": ["apex_load_bibliography"],
 "ast_filter_count": ["apex_run_ast_filters"],
}
# pass -> modes whose preset runs it
MODE_PASSES = {
 "apex_extract_metadata": [0, 0, 1, 1, 1],
 "apex_extract_alds": [0, 0, 0, 1, 1],
 "apex_extract_abbreviations": [0, 0, 1, 1, 1],
 "apex_replace_abbreviations": [0, 0, 1, 1, 1],
 "apex_preprocess_ial": [0, 0, 0, 1, 1],
 "apex_preprocess_image_attributes": [0, 0, 1, 1, 1],
 "apex_preprocess_bracketed_spans": [0, 0, 0, 0, 1],
 "apex_process_ial_in_tree": [0, 0, 1, 1, 1],
 "apex_process_includes": [0, 0, 1, 0, 1],
 "apex_metadata_replace_variables": [0, 0, 1, 0, 1],
 "apex_process_citations": [0, 0, 1, 0, 1],
 "apex_process_index_entries": [0, 0, 0, 0, 1],
 "apex_process_critic_markup_text": [0, 0, 0, 0, 1],
 "apex_process_callouts_in_tree": [0, 0, 0, 0, 1],
 "apex_process_fenced_divs": [0, 0, 0, 0, 1],
 "apex_process_definition_lists": [0, 0, 1, 1, 1],
 "apex_process_inline_footnotes": [0, 0, 1, 1, 1],
 "apex_process_highlights": [0, 1, 1, 1, 1],
 "apex_process_inserts": [0, 1, 1, 1, 1],
 "apex_process_inline_tables": [0, 1, 1, 1, 1],
 "apex_process_sup_sub": [0, 0, 1, 0, 1],
 "apex_process_relaxed_tables": [0, 0, 0, 1, 1],
 "apex_process_headerless_tables": [0, 1, 1, 1, 1],
 "apex_process_special_markers": [0, 0, 0, 1, 1],
 "apex_process_toc": [0, 0, 0, 1, 1],
 "apex_process_html_markdown": [0, 0, 1, 1, 1],
 "apex_replace_emoji": [0, 1, 0, 0, 1],
 "apex_autocorrect_emoji_names": [0, 0, 0, 0, 1],
 "apex_process_wiki_links_in_tree": [0] * 5,
 "apex_plugins_load": [0] * 5,
 "apex_run_ast_filters": [0] * 5,
 "apex_apply_syntax_highlighting": [0] * 5,
 "apex_wrap_html_document": [0] * 5,
 "apex_pretty_print_html": [0] * 5,
 "apex_inject_header_ids": [1] * 5,
 "create_math_extension": [0, 0, 1, 1, 1],
 "create_advanced_tables_extension": [0, 1, 1, 1, 1],
 "create_advanced_footnotes_extension": [0, 0, 1, 1, 1],
 "create_definition_list_extension": [0, 0, 1, 1, 1],
}
# built-in parser extensions attached in each mode's preset
MODE_EXT = {"table": [0, 1, 1, 1, 1], "tasklist": [0, 1, 0, 0, 1], "strikethrough": [0, 1, 0, 0, 1], "autolink": [0, 1, 0, 0, 1],
            "tagfilter": [0, 1, 0, 0, 0]}
EXT_GATE = {"table": "enable_tables", "tasklist": "enable_task_lists", "strikethrough": "enable_strikethrough", "autolink": "enable_autolink"}
# option -> bit of the parser/renderer option word
FLAGS = {"validate_utf8": 9, "unsafe": 17, "hardbreaks": 2, "nobreaks": 4, "github_pre_lang": 11, "enable_footnotes": 13,
         "enable_smart_typography": 10}
EXTERNAL = {"enable_plugins": 0, "code_highlighter": 0, "ast_filter_count": 0}
QUIET = dict(EXTERNAL, enable_file_includes=0, embed_images=0, bibliography_files=0, embed_stylesheet=0, csl_file=0, output_format=0)

# ------------------------------------------------------------------ C15: what selects which option
# (cli/main.c usage text, man/apex.1.md, man/apex-config.5.md, docs/index.md); "@next" / "@value" is the text given, "?" any value
_ONOFF = dict(
 [("plugins", "enable_plugins"), ("includes", "enable_file_includes"), ("relaxed-tables", "relaxed_tables"), ("per-cell-alignment", "per_cell_alignment"),
  ("alpha-lists", "allow_alpha_lists"), ("mixed-lists", "allow_mixed_list_markers"), ("unsafe", "unsafe"), ("sup-sub", "enable_sup_sub"),
  ("divs", "enable_divs"), ("spans", "enable_spans"), ("autolink", "enable_autolink"), ("strikethrough", "enable_strikethrough"),
  ("wikilinks", "enable_wiki_links"), ("emoji-autocorrect", "enable_emoji_autocorrect"), ("markdown-in-html", "enable_markdown_in_html"),
  ("wikilink-sanitize", "wikilink_sanitize"), ("transforms", "enable_metadata_transforms"), ("image-captions", "enable_image_captions")])
_ON = dict([("hardbreaks", "hardbreaks"), ("standalone", "standalone"), ("embed-css", "embed_stylesheet"), ("pretty", "pretty"), ("header-anchors", "header_anchors"),
  ("code-line-numbers", "code_line_numbers"), ("highlight-language-only", "highlight_language_only"), ("obfuscate-emails", "obfuscate_emails"),
  ("aria", "enable_aria"), ("widont", "enable_widont"), ("random-footnote-ids", "random_footnote_ids"), ("hashtags", "enable_hashtags"),
  ("style-hashtags", "style_hashtags"), ("hr-page-break", "hr_page_break"), ("title-from-h1", "title_from_h1"),
  ("page-break-before-footnotes", "page_break_before_footnotes"), ("embed-images", "embed_images"), ("no-bibliography", "suppress_bibliography"),
  ("link-citations", "link_citations"), ("show-tooltips", "show_tooltips"), ("no-index", "suppress_index")])
_OFF = dict([("no-tables", "enable_tables"), ("no-footnotes", "enable_footnotes"), ("no-smart", "enable_smart_typography"), ("no-math", "enable_math"),
  ("no-ids", "generate_header_ids"), ("no-indices", "enable_indices"), ("no-title-captions-only", "title_captions_only")])
_INDEX = {"enable_indices": 1, "enable_mmark_index_syntax": 1, "enable_textindex_syntax": 1, "enable_leanpub_index_syntax": 1}
_PROOF = {"proofreader_mode": 1, "enable_critic_markup": 1, "critic_mode": 2}
_POETRY = {"code_is_poetry": 1, "highlight_language_only": 1}
_TITLECAP = {"title_captions_only": 1, "enable_image_captions": 1}
PRESET_CALL = "apex_options_for_mode"
MODE_NAMES = {"commonmark": 0, "gfm": 1, "mmd": 2, "multimarkdown": 2, "kramdown": 3, "unified": 4}
FORMATS = {"html": 0, "json": 1, "json-filtered": 2, "ast-json": 2, "ast": 2, "markdown": 3, "md": 3, "mmd": 4, "commonmark": 5, "cmark": 5, "kramdown": 6,
           "gfm": 7, "terminal": 8, "cli": 8, "terminal256": 9, "man": 10, "man-html": 11}
ID_FORMATS = {"gfm": 0, "mmd": 1, "kramdown": 2}
HIGHLIGHTERS = {"pygments": "pygments", "p": "pygments", "pyg": "pygments", "skylighting": "skylighting", "s": "skylighting", "sky": "skylighting",
                "shiki": "shiki", "sh": "shiki"}
SPACES = {"dash": 0, "none": 1, "underscore": 2, "space": 3}
FILTERS = {"ast_filter_strict": "?", "ast_filter_commands": "?", "ast_filter_count": "?"}


def switches():
    """[(switch, following argument, {field: value})]"""
    out = []
    for k, o in _ONOFF.items():
        out += [("--" + k, "77", {o: 1}), ("--no-" + k, "77", {o: 0})]
    out += [("--" + k, "77", {o: 1}) for k, o in _ON.items()] + [("--" + k, "77", {o: 0}) for k, o in _OFF.items()]
    out += [("-s", "77", {"standalone": 1}), ("--indices", "77", _INDEX), ("--proofreader", "77", _PROOF), ("--code-is-poetry", "77", _POETRY),
            ("--title-captions-only", "77", _TITLECAP), ("--accept", "77", {"enable_critic_markup": 1, "critic_mode": 0}),
            ("--reject", "77", {"enable_critic_markup": 1, "critic_mode": 1}), ("--theme", "brett", {"theme_name": "@next"}),
            ("--title", "T", {"document_title": "@next"}), ("--base-dir", "d", {"base_directory": "@next"}),
            ("--wikilink-extension", "html", {"wikilink_extension": "@next"}), ("--csl", "a.csl", {"csl_file": "@next", "enable_citations": 1}),
            ("--bibliography", "a.bib", {"bibliography_files": "?", "enable_citations": 1}),
            ("--captions", "above", {"caption_position": 0}), ("--captions", "below", {"caption_position": 1}),
            ("--filter", "x", FILTERS), ("--filters", "x", FILTERS), ("--lua-filter", "x", FILTERS)]
    for k in ("--css", "--style"):
        out.append((k, "a.css", {"stylesheet_paths": "?", "stylesheet_count": "?", "standalone": 1}))
    for k in ("-m", "--mode"):
        out += [(k, t, {PRESET_CALL: m}) for t, m in MODE_NAMES.items()] + [(k, "nosuch", {})]
    for k in ("-t", "--to"):
        out += [(k, t, {"output_format": m}) for t, m in FORMATS.items()] + [(k, "nosuch", {})]
    out += [("--id-format", t, {"id_format": m}) for t, m in ID_FORMATS.items()] + [("--id-format", "nosuch", {}), ("--captions", "nosuch", {})]
    out += [("--code-highlight", t, {"code_highlighter": m}) for t, m in HIGHLIGHTERS.items()] + [("--code-highlight", "nosuch", {})]
    out += [("--wikilink-space", t, {"wikilink_space": m}) for t, m in SPACES.items()] + [("--wikilink-space", "nosuch", {})]
    # these act on the tool, not on the options
    out += [(k, "77", {}) for k in ("-h", "--help", "-v", "--version", "-o", "--output", "--width", "--list-plugins", "--install-plugin", "--uninstall-plugin",
                                    "--list-filters", "--install-filter", "--uninstall-filter", "--no-strict-filters", "--progress", "--no-progress",
                                    "--meta-file", "--meta", "--combine", "--mmd-merge", "--script")]
    return out


def metadata():
    """[(key, value, {field: value})]"""
    keys = dict(_ONOFF)
    for k in ("divs", "spans"):
        keys.pop(k)
    for k in ("hardbreaks", "standalone", "pretty", "header-anchors", "code-line-numbers", "highlight-language-only", "obfuscate-emails", "embed-images",
              "link-citations", "show-tooltips", "widont", "random-footnote-ids", "hashtags", "style-hashtags", "hr-page-break", "title-from-h1",
              "page-break-before-footnotes"):
        keys[k] = _ON[k]
    keys.update({"tables": "enable_tables", "footnotes": "enable_footnotes", "smart": "enable_smart_typography", "math": "enable_math",
                 "ids": "generate_header_ids", "suppress-bibliography": "suppress_bibliography", "suppress-index": "suppress_index",
                 "group-index-by-letter": "group_index_by_letter"})
    out = []

    def onoff(k, on, off):
        for v in ("true", "yes", "1"):
            out.append((k, v, on))
        for v in ("false", "no", "0"):
            out.append((k, v, off))
        out.append((k, "maybe", {}))
    for k, o in keys.items():
        onoff(k, {o: 1}, {o: 0})
    onoff("indices", _INDEX, {"enable_indices": 0})
    onoff("proofreader", _PROOF, {"proofreader_mode": 0})
    onoff("code-is-poetry", _POETRY, {"code_is_poetry": 0})
    onoff("title-captions-only", _TITLECAP, {"title_captions_only": 0})
    out += [("title", "T", {"document_title": "@value"}), ("base-dir", "d", {"base_directory": "@value"}),
            ("wikilink-extension", "html", {"wikilink_extension": "@value"}), ("csl", "a.csl", {"csl_file": "@value", "enable_citations": 1}),
            ("bibliography", "a.bib", {"enable_citations": 1}), ("terminal.theme", "brett", {"theme_name": "@value"}),
            ("terminal.width", "77", {"terminal_width": 77}), ("terminal.width", "0", {})]
    for k in ("style", "css"):
        out.append((k, "a.css", {"stylesheet_paths": "?", "stylesheet_count": "?", "standalone": 1}))
    out += [("mode", t, {PRESET_CALL: m}) for t, m in MODE_NAMES.items()] + [("mode", "nosuch", {})]
    out += [("id-format", t, {"id_format": m}) for t, m in ID_FORMATS.items()] + [("id-format", "nosuch", {})]
    out += [("code-highlight", t, {"code_highlighter": m}) for t, m in HIGHLIGHTERS.items()]
    out += [("code-highlight", t, {"code_highlighter": 0}) for t in ("none", "false")]
    out += [("wikilink-space", t, {"wikilink_space": m}) for t, m in SPACES.items()] + [("wikilink-space", "nosuch", {})]
    out += [(k, "true", {}) for k in ("author", "date", "keywords", "language", "zz-unknown")]
    return out

/* Stand-in for cmark-gfm's private src/html.h (declarations only). */
#ifndef CMARK_HTML_H
#define CMARK_HTML_H
#include "buffer.h"
#include "node.h"
void cmark_html_render_cr(cmark_strbuf *html);
void cmark_html_render_sourcepos(cmark_node *node, cmark_strbuf *html, int options);
#endif

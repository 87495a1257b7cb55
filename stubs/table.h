/* Stand-in for cmark-gfm's private extensions/table.h (the submodule is empty in
   this sandbox).  Declarations only: lets the analyser parse every apex source. */
#ifndef CMARK_GFM_TABLE_H
#define CMARK_GFM_TABLE_H
#include "cmark-gfm-core-extensions.h"
extern cmark_node_type CMARK_NODE_TABLE, CMARK_NODE_TABLE_ROW, CMARK_NODE_TABLE_CELL;
cmark_syntax_extension *create_table_extension(void);
int cmark_node_get_item_index(cmark_node *node);
int cmark_node_set_item_index(cmark_node *node, int idx);
#endif

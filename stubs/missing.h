/* Declarations of cmark-gfm functions newer than the installed 0.29.0.gfm.6. */
#ifndef VERIF_MISSING_H
#define VERIF_MISSING_H
struct cmark_node;
int cmark_node_get_item_index(struct cmark_node *node);
int cmark_node_set_item_index(struct cmark_node *node, int idx);
#endif

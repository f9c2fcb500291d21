/* Drives the C parser library through its public interface.
   usage: bindrv COMMANDS OUT ; one command per line, fields separated by tabs. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include "cparserlib.h"

static FILE *out;
static long nodes[200000];
static int n;

static void collect(long h) {
    nodes[n++] = h;
    for (int i = 0; i < VSSgetNumOfChildren(h); i++) collect(VSSgetChild(h, i));
}
static int idx(long h) {
    if (h == 0) return -1;
    for (int i = 0; i < n; i++) if (nodes[i] == h) return i;
    return -2;
}
static void hex(const char *s) {
    fputc(' ', out);
    if (s == NULL || *s == 0) { fputc('-', out); return; }
    for (; *s; s++) fprintf(out, "%02x", (unsigned char)*s);
}
static void dump(long h) {
    static const char *names[] = {"?", "sensor", "actuator", "attribute", "branch", "struct", "property"};
    node_t *p = (node_t *)(intptr_t)h;
    int t = VSSgetType(h);
    fprintf(out, "N %d %d %d %s", idx(h), idx(VSSgetParent(h)), VSSgetNumOfChildren(h), t >= 0 && t <= 6 ? names[t] : "?");
    hex(VSSgetName(h)); hex(VSSgetUUID(h)); hex(VSSgetDescr(h)); hex(VSSgetDatatype(h));
    hex(p->min); hex(p->max); hex(VSSgetUnit(h)); hex(p->defaultAllowed);
    fprintf(out, " %d %d", VSSgetValidation(h), VSSgetNumOfAllowedElements(h));
    for (int i = 0; i < VSSgetNumOfAllowedElements(h); i++) hex(VSSgetAllowedElement(h, i));
    fputc('\n', out);
    if (VSSgetChild(h, VSSgetNumOfChildren(h)) != 0) fprintf(out, "child out of range\n");
}

int main(int argc, char **argv) {
    if (argc < 3) return 2;
    FILE *in = fopen(argv[1], "r");
    out = fopen(argv[2], "w");
    long root = 0;
    char *line = NULL;
    size_t cap = 0;
    ssize_t len;
    while ((len = getline(&line, &cap, in)) > 0) {
        if (line[len - 1] == '\n') line[--len] = 0;
        char *f[64];
        int nf = 0;
        for (char *p = line; p != NULL && nf < 64;) {
            f[nf++] = p;
            p = strchr(p, '\t');
            if (p) *p++ = 0;
        }
        switch (f[0][0]) {
        case 'R':
            root = VSSReadTree(f[1]);
            n = 0;
            if (root) collect(root);
            fprintf(out, "R %d\n", n);
            break;
        case 'D':
            for (int i = 0; i < n; i++) dump(nodes[i]);
            break;
        case 'W':
            VSSWriteTree(f[1], root);
            fprintf(out, "W\n");
            break;
        case 'L':
            fprintf(out, "L %d\n", VSSGetLeafNodesList(nodes[atoi(f[2])], f[1]));
            break;
        case 'U':
            fprintf(out, "U %d\n", VSSGetUuidList(nodes[atoi(f[2])], f[1]));
            break;
        case 'S': { /* S node any leaf max path scope... */
            int max = atoi(f[4]), ns = nf - 6, validation = -1;
            noScopeList_t *scopes = NULL;
            if (ns > 0) {
                scopes = calloc(ns, sizeof(noScopeList_t));
                for (int i = 0; i < ns; i++) strcpy(scopes[i].path, f[6 + i]);
            }
            searchData_t *data = malloc(max * sizeof(searchData_t));
            char *path = strdup(f[5]); /* exactly as long as the text */
            int found = VSSSearchNodes(path, nodes[atoi(f[1])], max, data, f[2][0] == '1', f[3][0] == '1', ns, scopes, &validation);
            fprintf(out, "S %d %d", found, validation);
            for (int i = 0; i < found && i < max; i++) fprintf(out, " %d:%s", idx(data[i].foundNodeHandles), data[i].responsePaths);
            fputc('\n', out);
            free(path); free(data); free(scopes);
            break;
        }
        }
    }
    fprintf(out, "END\n");
    fclose(out);
    return 0;
}

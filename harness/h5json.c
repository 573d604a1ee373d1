/* h5json FILE: dump an HDF5 file as one JSON object, using only the HDF5
 * library (no code of the system under test).  Doubles are printed as C99 hex
 * floats (strings) so that they can be compared bit for bit. */
#include <hdf5.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

static void jstr(const char *s) {
    putchar('"');
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { putchar('\\'); putchar(c); }
        else if (c < 0x20) printf("\\u%04x", c);
        else putchar(c);
    }
    putchar('"');
}
static void jdbl(double d) {
    if (isnan(d)) printf("\"nan\"");
    else printf("\"%a\"", d);
}
static void jval(hid_t t, const char *p) {
    H5T_class_t c = H5Tget_class(t);
    size_t sz = H5Tget_size(t);
    if (c == H5T_INTEGER) {
        long long v = 0;
        int sgn = H5Tget_sign(t) == H5T_SGN_2;
        if (sz == 4) { if (sgn) v = *(int *)p; else v = *(unsigned *)p; }
        else if (sz == 8) v = *(long long *)p;
        else if (sz == 1) v = *(signed char *)p;
        else if (sz == 2) v = *(short *)p;
        printf("%lld", v);
    } else if (c == H5T_FLOAT) {
        if (sz == 4) jdbl(*(float *)p); else jdbl(*(double *)p);
    } else if (c == H5T_STRING) {
        if (H5Tis_variable_str(t)) { const char *s = *(char *const *)p; jstr(s ? s : ""); }
        else { char *b = calloc(1, sz + 1); memcpy(b, p, sz); jstr(b); free(b); }
    } else if (c == H5T_COMPOUND) {
        int n = H5Tget_nmembers(t);
        printf("{");
        for (int i = 0; i < n; i++) {
            char *nm = H5Tget_member_name(t, i);
            hid_t mt = H5Tget_member_type(t, i);
            if (i) printf(",");
            jstr(nm); printf(":");
            jval(mt, p + H5Tget_member_offset(t, i));
            H5Tclose(mt); H5free_memory(nm);
        }
        printf("}");
    } else printf("\"?class%d\"", (int)c);
}
static void jdata(hid_t t, hid_t s, const char *buf) {
    int nd = H5Sget_simple_extent_ndims(s);
    hsize_t d[8] = {1, 1, 1, 1, 1, 1, 1, 1};
    H5Sget_simple_extent_dims(s, d, NULL);
    size_t sz = H5Tget_size(t);
    if (nd <= 0) { jval(t, buf); return; }
    size_t rows = d[0], cols = 1;
    for (int i = 1; i < nd; i++) cols *= d[i];
    printf("[");
    for (size_t r = 0; r < rows; r++) {
        if (r) printf(",");
        if (nd > 1) printf("[");
        for (size_t c = 0; c < cols; c++) {
            if (c) printf(",");
            jval(t, buf + (r * cols + c) * sz);
        }
        if (nd > 1) printf("]");
    }
    printf("]");
}
static int afirst;
static herr_t acb(hid_t o, const char *nm, const H5A_info_t *i, void *x) {
    (void)i; (void)x;
    hid_t a = H5Aopen(o, nm, H5P_DEFAULT);
    hid_t ft = H5Aget_type(a), t = H5Tget_native_type(ft, H5T_DIR_ASCEND), s = H5Aget_space(a);
    long n = H5Sget_simple_extent_npoints(s);
    char *buf = calloc(n + 1, H5Tget_size(t) + 8);
    if (!afirst) printf(",");
    afirst = 0;
    jstr(nm); printf(":");
    if (H5Aread(a, t, buf) < 0) printf("\"?unreadable\"");
    else jdata(t, s, buf);
    free(buf);
    H5Sclose(s); H5Tclose(t); H5Tclose(ft); H5Aclose(a);
    return 0;
}
static void attrs(hid_t o) {
    printf("\"@\":{"); afirst = 1;
    H5Aiterate2(o, H5_INDEX_NAME, H5_ITER_INC, NULL, acb, NULL);
    printf("}");
}
static void group(hid_t g);
static int gbad;
static herr_t lcb(hid_t g, const char *nm, const H5L_info_t *i, void *x) {
    (void)i; (void)x;
    hid_t o = H5Oopen(g, nm, H5P_DEFAULT);
    printf(","); jstr(nm); printf(":");
    if (o < 0) { printf("\"?unopenable\""); gbad = 1; return 0; }
    H5I_type_t ty = H5Iget_type(o);
    if (ty == H5I_GROUP) group(o);
    else if (ty == H5I_DATASET) {
        hid_t ft = H5Dget_type(o), t = H5Tget_native_type(ft, H5T_DIR_ASCEND), s = H5Dget_space(o);
        long n = H5Sget_simple_extent_npoints(s);
        char *buf = calloc(n + 1, H5Tget_size(t) + 8);
        printf("{"); attrs(o);
        hsize_t d[8] = {0}; int nd = H5Sget_simple_extent_dims(s, d, NULL);
        printf(",\"dims\":[");
        for (int k = 0; k < nd; k++) printf("%s%llu", k ? "," : "", (unsigned long long)d[k]);
        printf("],\"data\":");
        if (H5Dread(o, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, buf) < 0) { printf("\"?unreadable\""); gbad = 1; }
        else jdata(t, s, buf);
        printf("}");
        free(buf);
        H5Sclose(s); H5Tclose(t); H5Tclose(ft);
    } else printf("{\"type\":%d}", (int)ty);
    H5Oclose(o);
    return 0;
}
static void group(hid_t g) {
    printf("{"); attrs(g);
    H5Literate(g, H5_INDEX_NAME, H5_ITER_INC, NULL, lcb, NULL);
    printf("}");
}
int main(int argc, char **argv) {
    H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
    if (argc < 2) return 2;
    hid_t f = H5Fopen(argv[1], H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) { printf("null\n"); return 3; }
    group(f);
    printf("\n");
    H5Fclose(f);
    return gbad ? 4 : 0;
}

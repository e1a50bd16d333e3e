#define _GNU_SOURCE
#undef caml_stat_free
#undef caml_stat_alloc
/* native side of sym.ml: replays a tape written by the symbolic engine */
#define CAML_NAME_SPACE
#define CAML_INTERNALS
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <caml/mlvalues.h>
#include <caml/memory.h>
#include <caml/alloc.h>
#include <caml/fail.h>
#include <caml/callback.h>
#include <caml/custom.h>

/* the stubs allocate and free through these, so that a replay sees what freed memory holds */
static struct { unsigned char *p; size_t n; int freed; } *blk; static size_t nblk;
void *sym_stat_alloc(size_t n) {
  unsigned char *p = calloc(1, n ? n : 1); blk = realloc(blk, (nblk + 1) * sizeof *blk);
  blk[nblk].p = p; blk[nblk].n = n; blk[nblk].freed = 0; nblk++; return p;
}
void sym_stat_free(void *p) {
  if (!p) return;
  for (size_t i = 0; i < nblk; i++) if (blk[i].p == p) {
    if (blk[i].freed) { puts("SYM-DOUBLE-FREE"); fflush(stdout); abort(); }
    blk[i].freed = 1; return; }          /* kept, never reused: use after free shows as a wrong dump, not as a crash */
  puts("SYM-BAD-FREE"); fflush(stdout); abort();
}

static FILE *tape; static int alt;   /* alt: use the alternative value of entries that have one */
static void open_tape(void) {
  if (!tape) { tape = fopen(getenv("SYM_TAPE"), "r"); if (!tape) { puts("SYM-NOTAPE"); exit(3); }
    alt = getenv("SYM_ALT") != NULL; }
}
static char *line; static size_t cap;
/* entry: kind|label|hex[|althex] */
static char *next(const char *kind, const char *label) {
  open_tape();
  ssize_t n = getline(&line, &cap, tape);
  if (n <= 0) { printf("SYM-DIVERGED tape ends at %s %s\n", kind, label); exit(4); }
  while (n > 0 && (line[n-1] == '\n')) line[--n] = 0;
  char *k = line; char *l = strchr(k, '|'); *l++ = 0; char *h = strchr(l, '|'); *h++ = 0;
  if (strcmp(k, kind) || strcmp(l, label)) { printf("SYM-DIVERGED tape has %s %s, program asks %s %s\n", k, l, kind, label); exit(4); }
  char *a = strchr(h, '|'); if (a) { *a++ = 0; if (alt) h = a; }
  return h;
}
static int hx(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static value hexval(char *h) {
  size_t n = strlen(h) / 2; value v = caml_alloc_string(n);
  for (size_t i = 0; i < n; i++) Bytes_val(v)[i] = hx(h[2*i]) * 16 + hx(h[2*i+1]);
  return v;
}
value sym_bytes(value l, value n) { return hexval(next("bytes", String_val(l))); }
value sym_secret(value l, value n) { return hexval(next("bytes", String_val(l))); }
value sym_int(value l, value a, value b) { return Val_long(atol(next("int", String_val(l)))); }
value sym_choose(value l, value a, value b) { return Val_long(atol(next("int", String_val(l)))); }
long env_choose(const char *l, long a, long b) { return atol(next("int", l)); }
long env_long(const char *l, long a, long b) { return atol(next("int", l)); }
void env_bytes(const char *l, unsigned char *p, long n) { char *h = next("bytes", l); for (long i = 0; i < n; i++) p[i] = hx(h[2*i]) * 16 + hx(h[2*i+1]); }
value sym_int64(value l) { return caml_copy_int64(strtoull(next("int64", String_val(l)), NULL, 10)); }
value sym_assume(value b) { if (!Bool_val(b)) { puts("SYM-ASSUME"); exit(5); } return Val_unit; }
value sym_check(value l, value b) { if (!Bool_val(b)) { printf("SYM-FAIL %s\n", String_val(l)); fflush(stdout); } return Val_unit; }
static void hexout(value s) { for (mlsize_t i = 0; i < caml_string_length(s) && i < 64; i++) printf("%02x", Byte_u(s, i)); }
value sym_check_eq(value l, value a, value b) {
  if (caml_string_length(a) != caml_string_length(b) || memcmp(String_val(a), String_val(b), caml_string_length(a))) {
    printf("SYM-FAIL %s: ", String_val(l)); hexout(a); printf(" <> "); hexout(b); printf("\n"); fflush(stdout); }
  return Val_unit;
}
value sym_spec(value n, value i, value s) { return hexval(next("spec", String_val(n))); }
value sym_uf(value n, value k, value s) { return hexval(next("uf", String_val(n))); }
extern void sym_set_hook(const char *, long) __attribute__((weak));
value sym_set(value n, value k) { if (sym_set_hook) sym_set_hook(String_val(n), Long_val(k)); return Val_unit; }
value sym_reach(value l) { return Val_unit; }
value sym_ready(value l) { return Val_unit; }
value sym_native(value u) { return Val_true; }
value sym_opaque(value u) { return u; }
value sym_pick(value u) { char *s = getenv("SYM_SCENARIO"); return caml_copy_string(s ? s : ""); }
value sym_poison(value b, value n) { return Val_unit; }
value sym_chunks(value l, value n) {
  char *h = next("chunks", String_val(l)); int k = 0; for (char *p = h; *p; p++) if (*p == ',') k++;
  value v = caml_alloc(k, 0); int i = 0;
  while (i < k) { Store_field(v, i++, Val_long(strtol(h, &h, 10))); h++; }
  return v;
}
/* a socket that keeps message boundaries: every read gets at most one chunk */
#include <sys/socket.h>
#include <sys/mman.h>
#include <unistd.h>
CAMLextern value caml_ml_open_descriptor_in(value); CAMLextern value caml_ml_open_descriptor_out(value); CAMLextern value caml_ml_flush(value);
value sym_chan_in(value s, value chunks) {
  int sv[2]; if (socketpair(AF_UNIX, SOCK_SEQPACKET, 0, sv)) { puts("SYM-SOCKET"); exit(6); }
  size_t pos = 0, n = caml_string_length(s); mlsize_t i = 0;
  while (pos < n) {
    size_t k = i < Wosize_val(chunks) ? Long_val(Field(chunks, i)) : n - pos; i++;
    if (k > n - pos) k = n - pos;
    if (k && write(sv[1], String_val(s) + pos, k) != (ssize_t)k) { puts("SYM-SOCKET"); exit(6); }
    pos += k;
  }
  close(sv[1]);
  return caml_ml_open_descriptor_in(Val_int(sv[0]));
}
static int chanfd;
value sym_chan_out(value u) { chanfd = memfd_create("out", 0); return caml_ml_open_descriptor_out(Val_int(chanfd)); }
value sym_chan_text(value c) {
  CAMLparam1(c); CAMLlocal1(r);
  caml_ml_flush(c);
  off_t n = lseek(chanfd, 0, SEEK_END); r = caml_alloc_string(n);
  if (pread(chanfd, (char *)String_val(r), n, 0) != n) exit(6);
  CAMLreturn(r);
}
/* contents of every reachable byte-carrying block, in visiting order */
static value *seen; static size_t nseen, cseen;
static void visit(value root) {
  value *stk = malloc(sizeof(value) * 65536); size_t sp = 0; stk[sp++] = root;
  while (sp) {
    value v = stk[--sp];
    if (!Is_block(v)) { printf("i%ld ", (long)Long_val(v)); continue; }
    if (!Is_in_value_area(v)) continue;
    size_t i; for (i = 0; i < nseen; i++) if (seen[i] == v) break;
    if (i < nseen) continue;
    if (nseen == cseen) { cseen = cseen ? 2 * cseen : 1024; seen = realloc(seen, cseen * sizeof(value)); }
    seen[nseen++] = v;
    if (Tag_val(v) == Infix_tag) v -= Infix_offset_val(v);
    int t = Tag_val(v);
    if (t == String_tag) { printf("s"); for (mlsize_t k = 0; k < caml_string_length(v); k++) printf("%02x", Byte_u(v, k)); printf(" "); }
    else if (t == Custom_tag) {
      printf("c");
      for (mlsize_t k = 1; k < Wosize_val(v); k++) {
        size_t j; for (j = 0; j < nblk; j++) if ((value)blk[j].p == Field(v, k)) break;
        if (j < nblk) { printf("->"); for (size_t q = 0; q < blk[j].n; q++) printf("%02x", blk[j].p[q]); }
        else printf("%016lx", (long)Field(v, k));
      }
      printf(" "); }
    else if (t < No_scan_tag) {
      mlsize_t st = t == Closure_tag ? Start_env_closinfo(Closinfo_val(v)) : 0;
      for (mlsize_t k = st; k < Wosize_val(v) && sp < 65000; k++) stk[sp++] = Field(v, k);
    }
  }
  free(stk);
}
value sym_check_indep(value l, value o) {
  printf("SYM-DUMP %s ", String_val(l)); nseen = 0; visit(o);
  for (size_t j = 0; j < nblk; j++) if (blk[j].freed) { printf("freed:"); for (size_t q = 0; q < blk[j].n; q++) printf("%02x", blk[j].p[q]); printf(" "); }
  printf("\n"); fflush(stdout); return Val_unit;
}
value sym_check_unshared(value l, value o, value strs) { return Val_unit; }
value sym_forge(value o, value ofs, value v) { return Val_unit; }

value sym_ctx(value o, value n) {
  for (mlsize_t k = 2; k < Wosize_val(o); k++) {
    value v = Field(o, k);
    if (Is_block(v) && Tag_val(v) == String_tag && caml_string_length(v) >= Long_val(n)) return v;
  }
  return caml_alloc_string(0);
}

static long finals;
static void fin(value root) {
  value *stk = malloc(sizeof(value) * 65536); size_t sp = 0; stk[sp++] = root; nseen = 0;
  while (sp) {
    value v = stk[--sp];
    if (!Is_block(v) || !Is_in_value_area(v)) continue;
    size_t i; for (i = 0; i < nseen; i++) if (seen[i] == v) break;
    if (i < nseen) continue;
    if (nseen == cseen) { cseen = cseen ? 2 * cseen : 1024; seen = realloc(seen, cseen * sizeof(value)); }
    seen[nseen++] = v;
    if (Tag_val(v) == Infix_tag) v -= Infix_offset_val(v);
    int t = Tag_val(v);
    if (t == Custom_tag) {
      struct custom_operations *o = Custom_ops_val(v);
      if (o->finalize && o->identifier[0] != '_') { o->finalize(v); finals++; }
    } else if (t < No_scan_tag) {
      mlsize_t st = t == Closure_tag ? Start_env_closinfo(Closinfo_val(v)) : 0;
      for (mlsize_t k = st; k < Wosize_val(v) && sp < 65000; k++) stk[sp++] = Field(v, k);
    }
  }
  free(stk);
}
value sym_finalise(value o) { finals = 0; fin(o); return Val_long(finals); }

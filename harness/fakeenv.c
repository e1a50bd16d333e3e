/* Stand-ins for the environment of the stubs: zlib, getentropy, unix file
   descriptors.  Every decision and every byte comes from env_choose/env_bytes:
   symbolic under the engine, read from the tape in the native replay. */
#define CAML_NAME_SPACE
#include <string.h>
#include <stdlib.h>
#include <zlib.h>
#include <caml/mlvalues.h>
#include <caml/alloc.h>
#include <caml/memory.h>

extern long env_choose(const char *label, long lo, long hi);
extern long env_long(const char *label, long lo, long hi);   /* not explored value by value */
extern void env_bytes(const char *label, unsigned char *p, long n);

#define LOG 4096
static unsigned char in_log[LOG], out_log[LOG];
static long in_n, out_n, budget, calls, ends, inits, live, errors, mode, err_at, ended, flushes, last_flush, last_wbits, last_level;

static long min(long a, long b) { return a < b ? a : b; }

static int start(z_streamp s) {
  s->msg = NULL; s->state = malloc(8); inits++; live++;
  if (mode == 2) { free((void *)s->state); live--; s->msg = "bad level"; errors++; return Z_STREAM_ERROR; }
  return Z_OK;
}
int deflateInit2_(z_streamp s, int level, int method, int wbits, int memLevel, int strategy, const char *version, int size) {
  last_level = level; last_wbits = wbits; return start(s); }
int inflateInit2_(z_streamp s, int wbits, const char *version, int size) { last_wbits = wbits; return start(s); }
static int stop(z_streamp s) { ends++; if (live <= 0) abort(); live--; free((void *)s->state); s->state = NULL; return Z_OK; }
int deflateEnd(z_streamp s) { return stop(s); }
int inflateEnd(z_streamp s) { return stop(s); }

static void move(z_streamp s, long c, long o) {
  for (long i = 0; i < c; i++) if (in_n < LOG) in_log[in_n++] = s->next_in[i];
  s->next_in += c; s->avail_in -= c; s->total_in += c;
  if (o > 0) {
    env_bytes("zout", s->next_out, o);
    for (long i = 0; i < o; i++) if (out_n < LOG) out_log[out_n++] = s->next_out[i];
    s->next_out += o; s->avail_out -= o; s->total_out += o;
  }
}
static int code(int inflating) {
  errors++;
  switch (env_choose("code", 0, inflating ? 4 : 1)) {
  case 0: return Z_STREAM_ERROR;
  case 1: return Z_MEM_ERROR;
  case 2: return Z_DATA_ERROR;
  case 3: return Z_NEED_DICT;
  default: return Z_BUF_ERROR;
  }
}
static const long sizes[] = { 0, 1, 1000000 };
static int step(z_streamp s, int flush, int inflating) {
  calls++;
  if (s->state == NULL) abort();
  last_flush = flush; if (flush != Z_NO_FLUSH) flushes++;
  if (mode == 1) {               /* huge sizes: no memory is touched */
    long c = env_long("used", 0, s->avail_in), o = env_long("made", 0, s->avail_out);
    in_n = c; out_n = o;
    s->avail_in -= c; s->avail_out -= o; return Z_OK;
  }
  if (calls == err_at) return code(inflating);
  if (ended) return Z_STREAM_END;
  if (budget <= 0) {             /* out of surprises: everything is consumed, the stream ends when it may */
    long c = s->avail_in;
    move(s, c, 0);
    if (inflating ? c == 0 : flush == Z_FINISH) { if (inflating) { errors++; return Z_BUF_ERROR; } ended = 1; return Z_STREAM_END; }
    return c == 0 && flush == Z_NO_FLUSH ? Z_BUF_ERROR : Z_OK;
  }
  budget--;
  long o = min(sizes[env_choose("out", 0, 2)], s->avail_out);
  long c = env_choose("in", 0, s->avail_in);
  /* the library contract: some progress when there is input and room */
  if (!inflating && flush == Z_SYNC_FLUSH && o < s->avail_out) c = s->avail_in;
  int done = inflating ? env_choose("end", 0, 1) : flush == Z_FINISH && c == s->avail_in && env_choose("end", 0, 1);
  if (c == 0 && o == 0 && s->avail_in > 0 && !done) { c = 1; }
  int idle = c == 0 && o == 0;
  move(s, c, o);
  if (done) { ended = 1; return Z_STREAM_END; }
  if (idle && inflating) { errors++; return Z_BUF_ERROR; }
  if (idle && flush == Z_NO_FLUSH) return Z_BUF_ERROR;
  return Z_OK;
}
int deflate(z_streamp s, int flush) { return step(s, flush, 0); }
int inflate(z_streamp s, int flush) { return step(s, flush, 1); }

/* entropy */
int getentropy(void *p, size_t n) {
  calls++;
  if (n > 256) { errors++; return -1; }
  if (calls == err_at) { errors++; return -1; }
  env_bytes("entropy", p, n);
  for (size_t i = 0; i < n; i++) if (out_n < LOG) out_log[out_n++] = ((unsigned char *)p)[i];
  return 0;
}
value unix_open(value path, value flags, value perm) { inits++; live++; return Val_int(7); }
value unix_close(value fd) { ends++; live--; return Val_unit; }
value unix_read(value fd, value buf, value ofs, value len) {
  long n = Long_val(len);
  calls++;
  if (calls == err_at) { errors++; return Val_long(0); }
  if (budget > 0) { budget--; n = env_choose("read", min(1, n), n); }
  env_bytes("entropy", &Byte_u(buf, Long_val(ofs)), n);
  for (long i = 0; i < n; i++) if (out_n < LOG) out_log[out_n++] = Byte_u(buf, Long_val(ofs) + i);
  return Val_long(n);
}

/* control from the harness */
value fk_reset(value b, value m, value e) {
  in_n = out_n = calls = ends = inits = live = errors = ended = flushes = 0; last_flush = -1; last_level = last_wbits = -100;
  budget = Long_val(b); mode = Long_val(m); err_at = Long_val(e); return Val_unit;
}
value fk_set(value i, value v) {
  if (Long_val(i) == 0) budget = Long_val(v); else if (Long_val(i) == 1) mode = Long_val(v); else err_at = calls + Long_val(v);
  return Val_unit;
}
static value str(unsigned char *p, long n) { value s = caml_alloc_string(n); for (long i = 0; i < n; i++) Byte_u(s, i) = p[i]; return s; }
value fk_in(value u) { return str(in_log, in_n); }
value fk_out(value u) { return str(out_log, out_n); }
value fk_stat(value i) {
  switch (Long_val(i)) { case 0: return Val_long(calls); case 1: return Val_long(ends); case 2: return Val_long(inits); case 3: return Val_long(live);
    case 4: return Val_long(errors); case 5: return Val_long(ended); case 6: return Val_long(in_n); case 7: return Val_long(out_n); case 8: return Val_long(flushes);
    case 9: return Val_long(last_flush); case 10: return Val_long(last_wbits); default: return Val_long(last_level); }
}

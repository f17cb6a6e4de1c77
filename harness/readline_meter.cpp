// Stands in for readline when the memory of the program is measured (C22): lines come from standard input, and
// before each one the bytes allocated and the descriptors open are written to the file named by METER.
// It keeps no history, so that nothing has to grow.
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static int out = -2;
static char buf[1 << 16];
static ssize_t have, at;
extern "C" char* readline(const char*) {
  if (out == -2) { const char* p = getenv("METER"); out = p ? open(p, O_CREAT | O_TRUNC | O_WRONLY, 0644) : -1; }
  uint64_t v[2] = {__sanitizer_get_current_allocated_bytes(), 0};
  for (int f = 0; f < 64; f++) if (fcntl(f, F_GETFD) != -1) v[1]++;
  if (out >= 0 && write(out, v, sizeof v) != sizeof v) _exit(119);
  char* line = (char*)malloc(1 << 14);
  size_t n = 0;
  for (;;) {
    if (at == have) { have = read(0, buf, sizeof buf); at = 0; if (have <= 0) { have = 0; break; } }
    char c = buf[at++];
    if (c == 4) { free(line); return nullptr; } // Ctrl-D
    if (c == '\n') { line[n] = 0; return (char*)realloc(line, n + 1); }
    if (n + 1 < 1 << 14) line[n++] = c;
  }
  if (!n) { free(line); return nullptr; }
  line[n] = 0;
  return line;
}
extern "C" void add_history(const char*) {}
